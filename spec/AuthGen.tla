------------------------------ MODULE AuthGen ------------------------------
(***************************************************************************)
(* Registries at related places, credentials of all kinds for some of them,  *)
(* packages of several scopes with tarballs all over the place, and what to  *)
(* do with them.                                                            *)
(***************************************************************************)
EXTENDS Auth, Json, IOUtils, TLC, Randomization

Rnd(S) == RandomElement(S)
Chance(n) == RandomElement(1..100) <= n

VARIABLES scn, phase
vars == <<scn, phase>>

Paths == { <<>>, <<"npm">>, <<"npm-evil">>, <<"npm", "sub">>, <<"NPM">>, <<"n p">>, <<"npm", "sub", "deep">> }
Place(i_) == [host |-> Rnd({"A", "A", "B", "C"}), path |-> Rnd({ <<>>, <<"npm">>, <<"npm">>, <<"npm-evil">>, <<"npm", "sub">>, <<"NPM">> })]
Near(pl) == IF Chance(30) THEN pl ELSE IF Chance(40) THEN [pl EXCEPT !.host = Rnd({"A", "B", "C"})] ELSE [pl EXCEPT !.path = Rnd(Paths)]

Kinds == {"token", "token", "basic", "nopass", "legacy"}
Scopes == <<"s", "t">>

\* at most one for each registry
RECURSIVE Distinct(_)
Distinct(q) == IF q = <<>> THEN <<>> ELSE <<Head(q)>> \o Distinct(SelectSeq(Tail(q), LAMBDA c : ~ Same(c.at, Head(q).at)))

Scenario(i_) ==
  LET d == Place(1)
      ns == Rnd(0..2)
      scopes == TLCEval([i \in 1..ns |-> [scope |-> Scopes[i], at |-> Near(d), slash |-> Chance(60), sign |-> Chance(75)]])
      regs == <<d>> \o [i \in 1..ns |-> scopes[i].at]
      creds == TLCEval(Distinct([i \in 1..Rnd(1..3) |->
                 [at |-> IF Chance(70) THEN regs[Rnd(DOMAIN regs)] ELSE Near(d), kind |-> Rnd(Kinds), slash |-> Chance(60),
                  odd |-> Chance(25)]]))
      np == Rnd(1..4)
      pkgs == TLCEval([i \in 1..np |-> [scope |-> Rnd({"", "", "s", "t", "u"}), own |-> Chance(50), at |-> Near(regs[Rnd(DOMAIN regs)]),
                                alias |-> Chance(20), hop |-> IF Chance(12) THEN Rnd({"meta", "tar"}) ELSE "", to |-> Place(2)]])
      nops == Rnd(1..3)
      ops == TLCEval([i \in 1..nops |-> [op |-> IF i = 1 THEN Rnd({"apply", "apply", "view", "ping"}) ELSE Rnd({"apply", "fresh", "view", "ping"}),
                                 p |-> Rnd(1..np)]])
  IN [default |-> d, slash |-> Chance(60), scopes |-> scopes, creds |-> creds, pkgs |-> pkgs, ops |-> ops,
      scopesIn |-> Rnd({"cli", "file"}), credsIn |-> Rnd({"cli", "file"}), defaultIn |-> Rnd({"cli", "file"}), hoisted |-> Chance(50)]

Init == scn = <<>> /\ phase = 0
Next == \/ phase = 0 /\ phase' = 1 /\ \E s \in { Scenario(phase) } : scn' = s
        \/ phase = 1 /\ phase' = 2 /\ UNCHANGED scn /\ PrintT("@@" \o ToJson(scn))
=============================================================================
