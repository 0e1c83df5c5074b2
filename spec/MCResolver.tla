----------------------------- MODULE MCResolver -----------------------------
(* Exhaustive instance: every small universe, every answer order. *)
EXTENDS Resolver, IOUtils

Small == "MC_SMALL" \in DOMAIN IOEnv

V1 == <<1, 0, 0, 0>>
V2 == <<2, 0, 0, 0>>
Dep(n, p, t, v) == [n |-> n, p |-> p, t |-> t, v |-> v, w |-> v, g |-> "latest", k |-> "prod"]
Opts(n, p) == { {} } \cup { {Dep(n, p, t, v)} : t \in {"caret", "gte"}, v \in {V1} } \cup { {Dep(n, p, "caret", V2)} }

RECURSIVE SetToSeq_(_)
SetToSeq_(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetToSeq_(S \ {x})

VerRec(p, v, ds) == [p |-> p, v |-> v, deps |-> SetToSeq_(ds)]
(* packages a, b (one version) and c, x (two versions); requirements:      *)
(* project -> a, b, x; a -> c, b; b -> c, x under its own or an alias name;*)
(* c@1 -> x, c@2 -> a (cycle)                                              *)
Universes ==
  { [vers |-> << VerRec("a", V1, ac \cup ab), VerRec("b", V1, bc \cup bx),
                 VerRec("c", V1, cx), VerRec("c", V2, ca),
                 VerRec("x", V1, {}), VerRec("x", V2, {}) >>,
     tags |-> << [p |-> "a", t |-> "latest", v |-> V1], [p |-> "b", t |-> "latest", v |-> V1],
                 [p |-> "c", t |-> "latest", v |-> V2], [p |-> "x", t |-> "latest", v |-> V1] >>] :
    ac \in Opts("c", "c"), ab \in { {}, {Dep("b", "b", "caret", V1)} },
    bc \in Opts("c", "c"), bx \in (IF Small THEN {{}} ELSE Opts("x", "x")) \cup { {Dep("x", "c", "caret", V1)} },
    cx \in (IF Small THEN {{Dep("x", "x", "caret", V1)}} ELSE Opts("x", "x")), ca \in { {}, {Dep("a", "a", "caret", V1)} } }
Roots == { SetToSeq_(ra \cup rb \cup rx) :
             ra \in { {Dep("a", "a", "caret", V1)} }, rb \in { {}, {Dep("b", "b", "caret", V1)} },
             rx \in { {}, {Dep("x", "x", "caret", V2)} } }

Init == \E U \in Universes, R \in Roots : RInit(U, R)
Next == RNext
Spec == Init /\ [][Next]_rvars /\ WF_rvars(Next)
Terminates == <>(phase # "run")
Bounded == Cardinality(tree) <= 12
=============================================================================
