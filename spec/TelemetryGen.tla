--------------------------- MODULE TelemetryGen ---------------------------
(***************************************************************************)
(* People with all kinds of configuration running oro a few times.            *)
(***************************************************************************)
EXTENDS Telemetry, Json, IOUtils, TLC

Rnd(S) == RandomElement(S)
Chance(n) == RandomElement(1..100) <= n
VARIABLES scn, phase
vars == <<scn, phase>>

Says(p) == IF Chance(p) THEN Rnd({"on", "off"}) ELSE ""
Dsn_(p) == IF Chance(p) THEN Rnd({"D1", "D2", "D1", "D2", "dead"}) ELSE ""
Source(t, f, d) == [tel |-> Says(t), first |-> Says(f), dsn |-> Dsn_(d)]
\* form: how it's written; extra: what else is in there; second: a section that doesn't count
\* ... or nothing of ours, but something else
Other_(i_) == [there |-> TRUE, form |-> Rnd({2, 5, 8}), extra |-> Rnd({4, 4, 5, 1}), second |-> FALSE, say |-> Nothing]
File_(t, f, d, there) == IF there /\ Chance(15) THEN TLCEval(Other_(1)) ELSE [there |-> there, form |-> Rnd(1..60), extra |-> Rnd(0..7), second |-> Chance(8), say |-> IF there THEN Source(t, f, d) ELSE Nothing]

Run_(i_) ==
  LET tty == Rnd({"all", "all", "all", "none", "none", "in", "out"})
  IN [cli |-> [tel |-> Says(20), first |-> Says(12), dsn |-> IF Chance(60) THEN Rnd({"D1", "D2", "D1", "D2", "D1", "dead"}) ELSE ""],
      env |-> Source(10, 6, 30), named |-> Chance(18), ci |-> IF Chance(20) THEN Rnd({"true", "1", "gitlab", "false"}) ELSE "",
      tty |-> tty, ans |-> Rnd({"yes", "no", "yes", "no", "cut"}), how |-> Rnd(1..6), pre |-> Rnd(0..5),
      cmd |-> Rnd({"missing", "missing", "apply", "ok"}), sec |-> Rnd({"", "", "cli", "file", "url", "env"}),
      kill |-> IF Chance(12) THEN Rnd(1..6) ELSE 0, reps |-> IF tty # "all" /\ Chance(60) THEN 16 ELSE 1]

Scenario(i_) ==
  LET n == Rnd(1..4)
      blk == TLCEval(Chance(5))
  IN [glob |-> TLCEval(File_(35, 35, 50, ~ blk /\ Chance(65))), proj |-> TLCEval(File_(25, 6, 15, Chance(35))), conf |-> TLCEval(File_(40, 35, 50, Chance(75))),
      blocked |-> blk, steps |-> TLCEval([i \in 1..n |-> Run_(i)])]

Init == scn = <<>> /\ phase = 0
Next == \/ phase = 0 /\ phase' = 1 /\ \E s \in { Scenario(phase) } : scn' = s
        \/ phase = 1 /\ phase' = 2 /\ UNCHANGED scn /\ PrintT("@@" \o ToJson(scn))
=============================================================================
