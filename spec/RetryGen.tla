------------------------------ MODULE RetryGen ------------------------------
(* Commands that make requests, and how these are answered. *)
EXTENDS Retry, Json, IOUtils, TLC

Rnd(S) == RandomElement(S)
Chance(n) == RandomElement(1..100) <= n
VARIABLES scn, phase
vars == <<scn, phase>>

Fault(bad) == IF Chance(bad) THEN Rnd(Permanent) ELSE Rnd(Transient)
\* Mostly no more of them than may be retried
Faults(limit, p, bad) == IF Chance(100 - p) THEN <<>> ELSE
  LET n == IF Chance(75) THEN Rnd(0..limit) ELSE Rnd(0..limit + 2) IN TLCEval([i \in 1..n |-> Fault(bad)])

Scenario(i_) ==
  LET limit == Rnd({0, 1, 1, 1, 2, 2, 3})
      cmd == Rnd({"apply", "apply", "apply", "view", "ping", "frozen"})
      n == IF cmd = "apply" THEN Rnd(1..4) ELSE IF cmd = "frozen" THEN Rnd(1..3) ELSE 1
      bad == Rnd({0, 0, 15})
      pkgs == TLCEval([i \in 1..n |-> [meta |-> Faults(limit, IF cmd = "frozen" THEN 0 ELSE 60, bad), tar |-> Faults(limit, 60, bad), optional |-> FALSE]])
  IN [cmd |-> cmd, limit |-> limit, pkgs |-> pkgs, ping |-> Faults(limit, 90, 20), cache |-> Chance(60),
      how |-> Rnd({"cli", "file", "default"})]

\* Twice by default. What's already in the cache may stand in for a failed request for more of the same, which
\* isn't judged here; and any successful answer is fine for a ping.
Fix(s) == [s EXCEPT !.limit = IF s.how = "default" THEN 2 ELSE @,
                    !.pkgs = [i \in DOMAIN @ |-> IF s.cmd = "view" /\ s.cache THEN [@[i] EXCEPT !.tar = <<>>] ELSE @[i]],
                    !.ping = [i \in DOMAIN @ |-> IF @[i] = "junk" THEN "404" ELSE @[i]]]

Init == scn = <<>> /\ phase = 0
Next == \/ phase = 0 /\ phase' = 1 /\ \E s \in { Scenario(phase) } : scn' = Fix(s)
        \/ phase = 1 /\ phase' = 2 /\ UNCHANGED scn /\ PrintT("@@" \o ToJson(scn))
=============================================================================
