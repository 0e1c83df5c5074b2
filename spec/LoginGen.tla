------------------------------ MODULE LoginGen ------------------------------
(***************************************************************************)
(* Registries to log in to, and how they'd answer.                           *)
(***************************************************************************)
EXTENDS Login, Json, IOUtils, TLC

Rnd(S) == RandomElement(S)
Chance(n) == RandomElement(1..100) <= n
VARIABLES scn, phase
vars == <<scn, phase>>

No(way, at) ==
  IF at = "poll" THEN Rnd({"202", "202soon", "202minus", "202half", "junk", "empty", "null", "204", "400", "401", "404", "500"})
  ELSE IF way = "web" THEN Rnd({"junk", "empty", "nodone", "nopage", "list", "400", "401", "401otp", "403", "404", "500"})
  ELSE Rnd({"junk", "empty", "null", "400", "401", "401basic", "401bearer", "401page", "403", "404", "500"} \cup (IF at = "otp" THEN {"401otp", "401otppage"} ELSE {}))
Token(i_) == [k |-> "token", form |-> Rnd({"plain", "odd", "extra", "made"}), secs |-> 0]
Wait(i_) == [k |-> "wait", form |-> "", secs |-> Rnd({0, 0, 0, 0, 1, 1, 2})]
Bad(way, at) == [k |-> "no", form |-> No(way, at), secs |-> 0]
Ask(way) ==
  LET n == Rnd(1..10)
  IN IF way = "web" THEN (IF n <= 8 THEN [k |-> "offer", form |-> "", secs |-> 0] ELSE Bad(way, "ask"))
     ELSE IF n <= 3 THEN [k |-> "offer", form |-> Rnd({"header", "text"}), secs |-> 0]
     ELSE IF n <= 6 THEN [k |-> "otp", form |-> Rnd({"header", "header2", "text", "text2", "halfpage"}), secs |-> 0]
     ELSE IF n <= 8 THEN Token(1)
     ELSE Bad(way, "ask")
Last(way, at) == IF Chance(65) THEN Token(1) ELSE Bad(way, at)

Scenario(i_) ==
  LET way == Rnd({"web", "legacy"})
      ask == TLCEval(Ask(way))
      n == Rnd(0..3)
      waits == TLCEval([i \in 1..n |-> Wait(i)])
  IN [way |-> way, ask |-> ask, otp |-> TLCEval(Last("legacy", "otp")), polls |-> waits \o <<TLCEval(Last(way, "poll"))>>,
      path |-> Rnd({ <<>>, <<"npm">>, <<"npm", "sub">> }), slash |-> Chance(50),
      done |-> Rnd({"own", "own", "outside", "other"}),
      pre |-> Rnd({"none", "empty", "elsewhere", "token", "basic", "legacy"}), named |-> Chance(30),
      user |-> Rnd(1..4), pass |-> Rnd(1..4), code |-> Rnd(1..2),
      scope |-> IF Chance(30) THEN Rnd({"s", "t", "s", "t", "uml"}) ELSE "", sign |-> Chance(60),
      tty |-> Chance(92), kill |-> IF Chance(15) THEN Rnd(1..3) ELSE 0]

Init == scn = <<>> /\ phase = 0
Next == \/ phase = 0 /\ phase' = 1 /\ \E s \in { Scenario(phase) } : scn' = s
        \/ phase = 1 /\ phase' = 2 /\ UNCHANGED scn /\ PrintT("@@" \o ToJson(scn))
=============================================================================
