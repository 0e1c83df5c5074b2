------------------------------ MODULE CredsGen ------------------------------
(***************************************************************************)
(* Config files, and histories of logging in and out of registries at        *)
(* related places, in various ways.                                          *)
(***************************************************************************)
EXTENDS Creds, Json, IOUtils, TLC

Rnd(S) == RandomElement(S)
Chance(n) == RandomElement(1..100) <= n
VARIABLES scn, phase
vars == <<scn, phase>>

Paths == { <<>>, <<"npm">>, <<"npm", "sub">>, <<"NPM">>, <<"npm-2">> }
Place(i_) == [host |-> Rnd({"A", "A", "A", "B", "C"}), path |-> Rnd(Paths)]
Kinds == {"token", "token", "basic", "nopass", "legacy"}

RECURSIVE Distinct(_)
Distinct(q) == IF q = <<>> THEN <<>> ELSE <<Head(q)>> \o Distinct(SelectSeq(Tail(q), LAMBDA c : ~ Same(c.at, Head(q).at)))
RECURSIVE DistinctScope(_)
DistinctScope(q) == IF q = <<>> THEN <<>> ELSE <<Head(q)>> \o DistinctScope(SelectSeq(Tail(q), LAMBDA c : c.scope # Head(q).scope))

Scenario(i_) ==
  LET n == Rnd(1..3)
      regs == TLCEval([i \in 1..n |-> Place(i)])
      reg(j_) == regs[Rnd(DOMAIN regs)]
      \* what's there to begin with
      file == Rnd({"none", "none", "empty", "other", "full", "full", "full"})
      creds == IF file # "full" THEN <<>> ELSE TLCEval(Distinct([i \in 1..Rnd(0..3) |->
                 [at |-> IF Chance(60) THEN reg(1) ELSE Place(2), kind |-> Rnd(Kinds), odd |-> Chance(30), slash |-> Chance(50), nested |-> Chance(20)]]))
      scopes == IF file # "full" THEN <<>> ELSE TLCEval(DistinctScope([i \in 1..Rnd(0..2) |->
                 [scope |-> Rnd({"s", "t", "u"}), at |-> IF Chance(60) THEN reg(1) ELSE Place(2), sign |-> Chance(75)]]))
      ops == TLCEval([i \in 1..Rnd(1..6) |->
               LET o == Rnd({"login", "login", "login", "logout", "logout", "ping", "view"})
               IN [op |-> o, at |-> reg(1), slash |-> Chance(50), kind |-> Rnd(Kinds), odd |-> Chance(30),
                   scope |-> IF o = "view" THEN Rnd({"", "s", "t"}) ELSE IF Chance(45) THEN Rnd({"s", "t"}) ELSE "", sign |-> Chance(75),
                   regIn |-> Rnd({"cli", "cli", "env"}), gone |-> Chance(20)]])
  IN [file |-> file, creds |-> creds, scopes |-> scopes, ops |-> ops, junk |-> file = "full" /\ Chance(30), named |-> Chance(30), props |-> Chance(30), style |-> Rnd(1..4)]

Init == scn = <<>> /\ phase = 0
Next == \/ phase = 0 /\ phase' = 1 /\ \E s \in { Scenario(phase) } : scn' = s
        \/ phase = 1 /\ phase' = 2 /\ UNCHANGED scn /\ PrintT("@@" \o ToJson(scn))
=============================================================================
