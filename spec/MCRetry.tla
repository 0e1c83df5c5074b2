------------------------------ MODULE MCRetry ------------------------------
(***************************************************************************)
(* Several requests at the same time, each through the same layers: one that *)
(* retries, around one that caches answers, and the network. An operation    *)
(* ends when one of its requests fails, or when all have succeeded.          *)
(***************************************************************************)
EXTENDS Retry, TLC, IOUtils

Flag(f) == f \in DOMAIN IOEnv
Small == Flag("MC_SMALL")
Reqs == IF Small THEN 1..2 ELSE 1..3
Faults == {"close", "503", "404"}
Seqs(n) == UNION { [1..k -> Faults] : k \in 0..n }

VARIABLES faults, limit, state, tries, op
vars == <<faults, limit, state, tries, op>>

Init == /\ faults \in [Reqs -> Seqs(IF Small THEN 3 ELSE 2)] /\ limit \in 0..2
        /\ state = [r \in Reqs |-> "idle"] /\ tries = [r \in Reqs |-> 0] /\ op = "running"

Send(r) ==
  /\ op = "running" /\ state[r] \in {"idle", "waiting"}
  /\ state' = [state EXCEPT ![r] = "sent"] /\ tries' = [tries EXCEPT ![r] = @ + 1]
  /\ UNCHANGED <<faults, limit, op>>

\* What the retrying layer gets to see: what a layer in between makes of it
Seen(a) == IF Flag("MC_INSIDE") /\ a = "close" THEN "opaque" ELSE a
Retries(a) == IF Flag("MC_ALL") THEN a # "ok" ELSE Seen(a) \in Transient

Receive(r) ==
  /\ op = "running" /\ state[r] = "sent"
  /\ LET a == Answer(faults[r], tries[r])
         left == IF Flag("MC_OFF") THEN tries[r] < limit ELSE tries[r] <= limit
     IN state' = [state EXCEPT ![r] = IF a = "ok" THEN "ok" ELSE IF Retries(a) /\ left THEN "waiting" ELSE "failed"]
  /\ UNCHANGED <<faults, limit, tries, op>>

Finish ==
  /\ op = "running"
  /\ \/ (\E r \in Reqs : state[r] = "failed") /\ op' = "error"
     \/ (\A r \in Reqs : state[r] = "ok") /\ op' = "ok"
  /\ UNCHANGED <<faults, limit, state, tries>>

Next == (\E r \in Reqs : Send(r) \/ Receive(r)) \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Bounded == \A r \in Reqs : tries[r] <= Attempts(faults[r], limit)
Exact == /\ op = "ok" => \A r \in Reqs : tries[r] = Attempts(faults[r], limit) /\ Succeeds(faults[r], limit)
         /\ op = "error" => \E r \in Reqs : state[r] = "failed" /\ tries[r] = Attempts(faults[r], limit) /\ ~ Succeeds(faults[r], limit)
Ends == <>(op # "running")
=============================================================================
