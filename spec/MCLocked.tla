------------------------------ MODULE MCLocked ------------------------------
(* Small universes with ranges, tags and bare requirements; the registry   *)
(* then publishes and re-tags in every way of a small choice.              *)
EXTENDS LockedResolver, IOUtils

Small == "MC_SMALL" \in DOMAIN IOEnv

V1 == <<1, 0, 0, 0>>
V2 == <<2, 0, 0, 0>>
V3 == <<3, 0, 0, 0>>
Dep(n, p, t, v) == [n |-> n, p |-> p, t |-> t, v |-> v, w |-> v, g |-> "latest", k |-> "prod"]
Opts(n, p) == { {} } \cup { {Dep(n, p, t, V1)} : t \in {"caret", "gte", "tag", "star"} } \cup { {Dep(n, p, "caret", V2)} }

RECURSIVE SetToSeq_(_)
SetToSeq_(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetToSeq_(S \ {x})
VerRec(p, v, ds) == [p |-> p, v |-> v, deps |-> SetToSeq_(ds)]
T(p, v) == [p |-> p, t |-> "latest", v |-> v]
Universes ==
  { [vers |-> << VerRec("a", V1, ac \cup ab), VerRec("b", V1, bc \cup bx),
                 VerRec("c", V1, {}), VerRec("c", V2, ca), VerRec("x", V1, {}) >>,
     tags |-> << T("a", V1), T("b", V1), T("c", lc), T("x", V1) >>] :
    ac \in Opts("c", "c"), ab \in { {}, {Dep("b", "b", "caret", V1)} },
    bc \in Opts("c", "c"), bx \in { {}, {Dep("x", "c", "caret", V1)}, {Dep("x", "x", "tag", V1)} },
    ca \in { {}, {Dep("a", "a", "caret", V1)} }, lc \in (IF Small THEN {V2} ELSE {V1, V2}) }
Roots == { SetToSeq_({Dep("a", "a", "caret", V1)} \cup rb \cup rc) :
             rb \in { {}, {Dep("b", "b", "caret", V1)} }, rc \in (IF Small THEN {{}, {Dep("c", "c", "tag", V1)}} ELSE Opts("c", "c")) }
Moved(U) ==
  { [vers |-> U.vers \o << VerRec("c", V3, {}), VerRec("b", <<1,1,0,0>>, {}), VerRec("x", V2, {}) >>,
     tags |-> << T("a", V1), T("b", <<1,1,0,0>>), T("c", lc), T("x", V2) >>] : lc \in {V1, V3} }

Init == \E U \in Universes, R \in Roots : LRInit(U, R)
Next == First \/ (\E U2 \in Moved(uni) : MoveOn(U2)) \/ Second
Spec == Init /\ [][Next]_lvars
=============================================================================
