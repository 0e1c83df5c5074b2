------------------------------ MODULE MCScripts ------------------------------
(***************************************************************************)
(* The scheduler of one event's scripts, over every small dependency graph, *)
(* set of newly installed packages, failing ones and concurrency limit.     *)
(* A package waits for what it transitively depends on, unless that depends *)
(* on it as well; when one finishes, those that waited for it last are      *)
(* queued.                                                                  *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC, IOUtils

Nodes == IF "MC_SMALL" \in DOMAIN IOEnv THEN 1..3 ELSE 1..4
VARIABLES edges, pending, bad, opt, limit,      \* the situation
          queue, running, done, failed, waiting, log
vars == <<edges, pending, bad, opt, limit, queue, running, done, failed, waiting, log>>

RECURSIVE Reach(_, _, _)
Reach(E, acc, todo) == IF todo = {} THEN acc
  ELSE Reach(E, acc \cup todo, { e[2] : e \in { e \in E : e[1] \in todo } } \ (acc \cup todo))
Beyond(E, a) == Reach(E, {}, { e[2] : e \in { e \in E : e[1] = a } })
Waits(E, a, b) == a # b /\ b \in Beyond(E, a) /\ (("MC_NAIVE" \in DOMAIN IOEnv) \/ a \notin Beyond(E, b))

Init ==
  /\ edges \in SUBSET { e \in Nodes \X Nodes : e[1] < e[2] \/ e[1] = e[2] + 1 }
  /\ pending \in SUBSET Nodes
  /\ bad \in { b \in SUBSET pending : Cardinality(b) <= 1 } /\ opt \in { o \in SUBSET bad : TRUE }
  /\ limit \in 1..2
  /\ waiting = [n \in pending |-> { d \in pending : Waits(edges, n, d) }]
  /\ queue = { n \in pending : { d \in pending : Waits(edges, n, d) } = {} }
  /\ running = {} /\ done = {} /\ failed = FALSE /\ log = <<>>

Begin == /\ ~ failed /\ Cardinality(running) < limit
         /\ \E n \in queue : queue' = queue \ {n} /\ running' = running \cup {n} /\ log' = Append(log, <<"S", n>>)
         /\ UNCHANGED <<edges, pending, bad, opt, limit, done, failed, waiting>>
End == /\ ~ failed
       /\ \E n \in running :
            /\ running' = running \ {n} /\ log' = Append(log, <<"E", n>>)
            /\ IF n \in bad /\ n \notin opt
               THEN failed' = TRUE /\ UNCHANGED <<done, waiting, queue>>
               ELSE /\ done' = done \cup {n} /\ UNCHANGED failed
                    /\ waiting' = [m \in pending |-> waiting[m] \ {n}]
                    /\ queue' = queue \cup { m \in pending : n \in waiting[m] /\ waiting[m] = {n} }
       /\ UNCHANGED <<edges, pending, bad, opt, limit>>
Over == failed \/ done = pending
Next == Begin \/ End \/ (Over /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Begin \/ End)

Pos(k, n) == { i \in DOMAIN log : log[i] = <<k, n>> }
InOrder == \A n \in pending, d \in pending : Waits(edges, n, d) =>
             \A i \in Pos("S", n) : \E j \in Pos("E", d) : j < i
Once == \A n \in Nodes : Cardinality(Pos("S", n)) <= (IF n \in pending THEN 1 ELSE 0)
Limited == Cardinality(running) <= limit
NoneAfterFailure == failed => \A n \in pending, d \in bad \ opt : Waits(edges, n, d) => Pos("S", n) = {}
FailsIfMust == (failed => bad \ opt # {}) /\ (done = pending => bad \subseteq opt)
Ends == <>Over
=============================================================================
