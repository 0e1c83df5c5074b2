------------------------------ MODULE MCSelect ------------------------------
(* Every publication history over a small pool, every tag, every request:    *)
(* what Select promises.                                                     *)
EXTENDS Semver
Pool == { <<1,0,0,0>>, <<1,1,0,1>>, <<1,1,0,2>>, <<1,1,0,0>>, <<2,0,0,1>> }
VARIABLES U, d, deftag
vars == <<U, d, deftag>>
SeqOf(S) == CHOOSE s \in [1..Cardinality(S) -> S] : Range(s) = S
Recs(S) == LET s == SeqOf(S) IN [i \in DOMAIN s |-> [p |-> "p", v |-> s[i]]]
Init ==
  /\ \E S \in SUBSET Pool, T \in { <<>> } \cup { << [p |-> "p", t |-> "latest", v |-> x] >> : x \in Pool } :
       U = [vers |-> Recs(S), tags |-> T]
  /\ \E k \in RangeKinds \cup {"exact", "tag", "none"}, v \in Pool, w \in { <<1,1,0,2>>, <<2,0,0,1>> } :
       d = [n |-> "q", p |-> "p", t |-> k, v |-> v, w |-> w, g |-> IF k = "tag" THEN "latest" ELSE ""]
  /\ deftag = "latest"
Next == UNCHANGED vars
S == Select(U, d, deftag)
Published == S # NoVersion => S \in VersionsOf(U, "p")
MeetsIt == S # NoVersion => Meets(U, "p", S, d, deftag)
NoneBetter == (S # NoVersion /\ IsRange(d) /\ ~ (HasTag(U, "p", deftag) /\ S = TagOf(U, "p", deftag)))
              => \A v \in VersionsOf(U, "p") : InRange(v, d) => VLe(v, S)
ErrorOnlyIfNothing == (S = NoVersion /\ IsRange(d)) => \A v \in VersionsOf(U, "p") : ~ InRange(v, d)
TagFirst == (IsRange(d) /\ HasTag(U, "p", deftag) /\ TagOf(U, "p", deftag) \in VersionsOf(U, "p")
             /\ InRange(TagOf(U, "p", deftag), d)) => S = TagOf(U, "p", deftag)
OrderTotal == \A a, b \in Pool : a = b \/ VLt(a, b) \/ VLt(b, a)
=============================================================================
