------------------------------ MODULE EditGen ------------------------------
(***************************************************************************)
(* Manifests, what there is in a registry, and edits.                         *)
(***************************************************************************)
EXTENDS Edit, Json, IOUtils, TLC

Rnd(S) == RandomElement(S)
Chance(n) == RandomElement(1..100) <= n
VARIABLES scn, phase
vars == <<scn, phase>>

Names == <<"a", "b", "@s/c", "d">>
Pool == << <<0,1,0,0>>, <<1,0,0,0>>, <<1,0,1,0>>, <<1,1,0,0>>, <<1,2,0,1>>, <<1,2,0,0>>, <<2,0,0,0>>, <<2,0,0,3>> >>
RECURSIVE Concat(_)
Concat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Concat(Tail(q))
RECURSIVE Uniq(_)
Uniq(q) == IF q = <<>> THEN <<>> ELSE <<Head(q)>> \o Uniq(SelectSeq(Tail(q), LAMBDA e : e # Head(q)))
RECURSIVE UniqN(_)
UniqN(q) == IF q = <<>> THEN <<>> ELSE <<Head(q)>> \o UniqN(SelectSeq(Tail(q), LAMBDA e : e.n # Head(q).n))

Scenario(i_) ==
  LET vs == TLCEval([p \in DOMAIN Names |-> TLCEval(Uniq([j \in 1..Rnd(1..4) |-> Pool[Rnd(DOMAIN Pool)]]))])
      vers == Concat([p \in DOMAIN Names |-> [j \in DOMAIN vs[p] |-> [p |-> Names[p], v |-> vs[p][j], deps |-> <<>>]]])
      tags == TLCEval(Concat([p \in DOMAIN Names |-> <<[p |-> Names[p], t |-> "latest", v |-> vs[p][Rnd(DOMAIN vs[p])]]>>
                                             \o (IF Chance(40) THEN <<[p |-> Names[p], t |-> "next", v |-> vs[p][Rnd(DOMAIN vs[p])]]>> ELSE <<>>)]))
      aName(j_) == Rnd({"a", "b", "@s/c", "d", "d"})
      Alias(p) == IF Chance(15) THEN Rnd({"al", "@t/al", "a", "b"}) ELSE p
      Index(p) == CHOOSE i \in DOMAIN Names : Names[i] = p
      AnyOf(p) == LET q == vs[Index(p)] IN q[Rnd(DOMAIN q)]
      \* a requirement which something meets
      entry(p, n) == [n |-> n, p |-> p, t |-> Rnd({"exact", "caret", "tilde", "gte"}), v |-> AnyOf(p), w |-> <<0,0,0,0>>, g |-> ""]
      some(n) == IF n = 0 THEN <<>> ELSE TLCEval([j \in 1..n |-> LET p == TLCEval(aName(j)) IN entry(p, TLCEval(Alias(p)))])
      all == TLCEval(UniqN(some(Rnd(0..4))))
      cut1 == TLCEval(Rnd(0..Len(all)))
      cut2 == TLCEval(Rnd(cut1..Len(all)))
      opt == TLCEval(UniqN(SelectSeq(some(Rnd({0, 0, 1, 2})), LAMBDA e : \A j \in DOMAIN all : all[j].n # e.n)))
      peer == TLCEval(IF Chance(20) /\ all # <<>> THEN <<all[Rnd(DOMAIN all)]>> ELSE <<>>)
      start == [prod |-> SubSeq(all, 1, cut1), dev |-> SubSeq(all, cut1 + 1, Len(all)), opt |-> opt, peer |-> peer]
      req(j_) == LET p == TLCEval(aName(j_)) IN
                 [n |-> TLCEval(Alias(p)), p |-> p, t |-> Rnd({"none", "none", "none", "exact", "caret", "tilde", "gte", "star", "tag", "tag", "maj"}),
                  v |-> IF Chance(90) THEN AnyOf(p) ELSE <<9,9,9,0>>, w |-> <<2,0,0,0>>, g |-> Rnd({"latest", "next", "next"})]
      bad(j_) == [n |-> "", p |-> Rnd({"nope", "@s/nope", "@@@", "a@npm:", "a b"}), t |-> "bad", v |-> <<0,0,0,0>>, w |-> <<0,0,0,0>>, g |-> ""]
      rm(j_) == IF Chance(75) /\ all # <<>> THEN all[Rnd(DOMAIN all)].n ELSE Rnd({"a", "b", "@s/c", "d", "al", "@t/al"})
      op(j_) == LET o == TLCEval(Rnd({"add", "add", "rm"})) IN
        [op |-> o,
         specs |-> IF o = "rm" THEN <<>> ELSE TLCEval([j \in 1..Rnd({1, 1, 1, 2, 3}) |-> IF Chance(8) THEN bad(j) ELSE req(j)]),
         names |-> IF o = "add" THEN <<>> ELSE TLCEval([j \in 1..Rnd({1, 1, 1, 2, 3}) |-> IF Chance(6) THEN Rnd({"./a", "a/b", "github:a/b"}) ELSE rm(j)]),
         suffix |-> Chance(10),
         kind |-> Rnd({"prod", "prod", "dev", "opt"}), flag |-> Rnd(1..3), prefix |-> Rnd({"caret", "caret", "caret", "tilde", "exact", "gte"}),
         mode |-> Rnd({"full", "full", "full", "full", "lockfile-only", "no-apply", "no-lockfile"}), locked |-> Chance(10),
         kill |-> IF Chance(15) THEN Rnd(1..6) ELSE 0]
      ops == TLCEval([j \in 1..Rnd(1..4) |-> op(j)])
      broken == IF Chance(25) THEN {aName(1)} ELSE {}
  IN [uni |-> [vers |-> vers, tags |-> tags], start |-> start, ops |-> ops, broken |-> broken, hoisted |-> Chance(50),
      how |-> Rnd({"404", "corrupt"}),
      bad |-> IF Chance(8) THEN Rnd({"malformed", "missing", "array", "string", "root", "number"}) ELSE "",
      order |-> Rnd(1..6), indent |-> Rnd({"2", "2", "4", "3", "1", "tab", "tabs"}), crlf |-> Chance(25), trail |-> Chance(70),
      odd |-> IF Chance(15) THEN Rnd({"oneline", "blank", "lead"}) ELSE "", sub |-> Chance(25)]

Init == scn = <<>> /\ phase = 0
Next == \/ phase = 0 /\ phase' = 1 /\ \E s \in { Scenario(phase) } : scn' = s
        \/ phase = 1 /\ phase' = 2 /\ UNCHANGED scn /\ PrintT("@@" \o ToJson(scn))
=============================================================================
