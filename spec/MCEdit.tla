------------------------------- MODULE MCEdit -------------------------------
(***************************************************************************)
(* Adding and removing as it is done: the manifest is read, edited in memory  *)
(* name by name, what it then asks for is installed, and only then is it      *)
(* written, to a file on the side which replaces the manifest. Installing may   *)
(* fail, and a crash may come at any point. The manifest on disk is what it    *)
(* was or what it is to be, and what it is to be is described by Edit.          *)
(***************************************************************************)
EXTENDS Edit, TLC, IOUtils

Flag(f) == f \in DOMAIN IOEnv
Small == Flag("MC_SMALL")
Ns == IF Small THEN {"a", "b", "c"} ELSE {"a", "b", "c", "d"}
Kinds == {"prod", "dev", "peer"}
Reqs == {"1", "2"}
Torn == [k \in Sections |-> <<[n |-> "torn", s |-> ""]>>]
Limit == IF Small THEN 2 ELSE 3

Lists1(S) == UNION { { q \in [1..m -> [n : S, s : {"1"}]] : \A i, j \in 1..m : i # j => q[i].n # q[j].n } : m \in 0..Cardinality(S) }
Start == { [k \in Sections |-> CASE k = "prod" -> p [] k = "dev" -> d [] OTHER -> e] :
           p \in Lists1(Ns \ {"c"}), d \in { <<>>, <<[n |-> "c", s |-> "1"]>> }, e \in { <<>> } }
         \cup { [k \in Sections |-> CASE k = "prod" -> p [] k = "dev" -> <<>> [] k = "peer" -> <<[n |-> "b", s |-> "1"], [n |-> "a", s |-> "1"]>> [] OTHER -> <<>>] : p \in Lists1(Ns \ {"c"}) }

Asks == { [op |-> "add", es |-> es, k |-> k] : es \in UNION { [1..m -> [n : Ns, s : {"2"}]] : m \in 1..2 }, k \in {"prod", "dev"} }
        \cup { [op |-> "rm", es |-> es, k |-> "prod"] : es \in UNION { [1..m -> [n : Ns, s : {""}]] : m \in 1..2 } }

VARIABLES disk, side, mem, ask, todo, pc, old, new, inst, runs, orig
vars == <<disk, side, mem, ask, todo, pc, old, new, inst, runs, orig>>

Result(M, a) == IF a.op = "add" THEN AddedAll(M, a.k, a.es) ELSE RemovedAll(M, [i \in DOMAIN a.es |-> a.es[i].n])

Init == /\ disk \in Start /\ side = <<>> /\ mem = disk /\ ask \in Asks /\ todo = ask.es /\ pc = "idle"
        /\ old = disk /\ new = disk /\ inst = disk /\ runs = 0 /\ orig = disk

Begin == /\ pc = "idle" /\ runs < Limit /\ runs' = runs + 1
         /\ \E a \in IF runs = 0 THEN {ask} ELSE { b \in Asks : Len(b.es) = 1 } :
              /\ ask' = a /\ todo' = a.es /\ mem' = disk /\ old' = disk /\ new' = Result(disk, a) /\ orig' = disk
         /\ pc' = "edit" /\ UNCHANGED <<disk, side, inst>>

\* Taking an entry out of a section. (An unordered removal puts the last entry in its place.)
Taken(q, n) == IF Flag("MC_SWAP") /\ \E i \in DOMAIN q : q[i].n = n
               THEN LET i == CHOOSE i \in DOMAIN q : q[i].n = n IN SubSeq([q EXCEPT ![i] = q[Len(q)]], 1, Len(q) - 1)
               ELSE Without(q, n)
Edit1 == /\ pc = "edit"
         /\ IF todo = <<>> THEN pc' = (IF Flag("MC_EARLY") THEN "write" ELSE "apply") /\ UNCHANGED <<todo, mem>>
            ELSE /\ todo' = Tail(todo) /\ pc' = "edit"
                 /\ LET e == Head(todo)
                        R == [k \in Sections |-> IF Flag("MC_ONESECTION") /\ k # ask.k THEN mem[k] ELSE Taken(mem[k], e.n)]
                    IN mem' = IF ask.op = "rm" THEN R
                              ELSE IF Flag("MC_LAST") /\ Len(todo) > 1 THEN R
                              ELSE [R EXCEPT ![ask.k] = Append(@, e)]
         /\ UNCHANGED <<disk, side, ask, old, new, inst, runs, orig>>
Apply == /\ pc = "apply"
         /\ \/ inst' = mem /\ pc' = (IF Flag("MC_EARLY") THEN "ok" ELSE "write")
            \/ UNCHANGED inst /\ pc' = "error"
         /\ UNCHANGED <<disk, side, mem, ask, todo, old, new, runs, orig>>
\* What is written may be cut short
Write == /\ pc = "write"
         /\ IF Flag("MC_TORN") THEN disk' = Torn /\ pc' = "rewrite" /\ UNCHANGED side
            ELSE side' = <<mem>> /\ pc' = "rename" /\ UNCHANGED disk
         /\ UNCHANGED <<mem, ask, todo, old, new, inst, runs, orig>>
Finish == /\ pc \in {"rewrite", "rename"}
          /\ disk' = (IF pc = "rename" THEN side[1] ELSE mem) /\ side' = <<>>
          /\ pc' = (IF Flag("MC_EARLY") THEN "apply" ELSE "ok")
          /\ UNCHANGED <<mem, ask, todo, old, new, inst, runs, orig>>
Crash == /\ pc \notin {"idle", "ok", "error"} /\ pc' = "crashed" /\ UNCHANGED <<disk, side, mem, ask, todo, old, new, inst, runs, orig>>
Again == pc \in {"ok", "error", "crashed"} /\ pc' = "idle" /\ UNCHANGED <<disk, side, mem, ask, todo, old, new, inst, runs, orig>>

Next == Begin \/ Edit1 \/ Apply \/ Write \/ Finish \/ Crash \/ Again

\* Which is listed where, in which order
Right == /\ disk \in {old, new}
         /\ pc = "ok" => disk = new /\ inst = new
         /\ pc = "error" => disk = old
\* A name that was added is in one place only, and whatever wasn't named is where it was
Once == pc = "ok" /\ ask.op = "add" => \A i \in DOMAIN ask.es : Lists(disk, ask.es[i].n) = {ask.k}
Gone == pc = "ok" /\ ask.op = "rm" => \A i \in DOMAIN ask.es : Lists(disk, ask.es[i].n) = {}
Rest == LET ns == { ask.es[i].n : i \in DOMAIN ask.es } IN
        pc \in {"ok", "error", "crashed"} => \A k \in Sections :
          SelectSeq(disk[k], LAMBDA e : e.n \notin ns) = SelectSeq(orig[k], LAMBDA e : e.n \notin ns)
=============================================================================
