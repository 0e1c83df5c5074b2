----------------------------- MODULE SelectGen -----------------------------
(* Random publication histories of one package, with the requests made of it. *)
EXTENDS Semver, Json, IOUtils

Rnd(S) == RandomElement(S)
Chance(n) == RandomElement(1..100) <= n
Pool == << <<0,0,1,0>>, <<0,0,2,0>>, <<0,1,0,0>>, <<0,1,1,0>>, <<0,2,0,2>>, <<0,2,0,0>>,
           <<1,0,0,0>>, <<1,0,1,0>>, <<1,1,0,0>>, <<1,2,0,1>>, <<1,2,0,2>>, <<1,2,0,10>>, <<1,2,0,0>>,
           <<1,3,0,1>>, <<2,0,0,1>>, <<2,0,0,0>>, <<2,1,0,0>>, <<10,0,0,0>>, <<9,9,9,0>> >>
TagNames == << "latest", "next", "beta", "v1-legacy" >>
KindSeq == << "exact", "caret", "tilde", "gte", "gt", "lte", "lt", "x", "xx", "hyphen", "or", "star",
           "tag", "none", "maj", "majmin", "caretmaj", "caretmin", "tildemaj", "tildemin", "and", "hyphenmin" >>
NReq == 24

VARIABLES vers, tags, reqs, step
gvars == <<vers, tags, reqs, step>>
GInit == vers = <<>> /\ tags = <<>> /\ reqs = <<>> /\ step = 0

(* A few of the versions, in some order of publication.  (Random choices are *)
(* bound with \E: a LET would be evaluated anew wherever it is used.)        *)
NPub == 9
Publish ==
  /\ step < NPub
  /\ \E pick \in {Pool[Rnd(DOMAIN Pool)]}, c \in {Chance(55)}, stop \in {Chance(12)} :
       /\ vers' = IF c /\ \A i \in DOMAIN vers : vers[i].v # pick THEN Append(vers, [p |-> "p", v |-> pick, deps |-> <<>>]) ELSE vers
       /\ step' = IF stop THEN NPub ELSE step + 1
  /\ UNCHANGED <<tags, reqs>>

(* Tags usually point to a published version, rarely to one that is not there *)
SetTag(i) ==
  /\ step = NPub + i - 1 /\ step' = step + 1
  /\ tags' = IF Chance(IF i = 1 THEN 15 ELSE 45) \/ vers = <<>> THEN tags
             ELSE Append(tags, [p |-> "p", t |-> TagNames[i], v |-> IF Chance(8) THEN Pool[Rnd(DOMAIN Pool)] ELSE vers[Rnd(DOMAIN vers)].v])
  /\ UNCHANGED <<vers, reqs>>

RandV(i_) == IF vers # <<>> /\ Chance(60) THEN vers[Rnd(DOMAIN vers)].v ELSE Pool[Rnd(DOMAIN Pool)]
Ask ==
  /\ step >= NPub + 4 /\ step < NPub + 4 + NReq /\ step' = step + 1
  /\ \E a \in {RandV(step)}, b \in {RandV(step)}, k \in {KindSeq[Rnd(DOMAIN KindSeq)]}, al \in {Chance(15)},
        g \in {TagNames[Rnd(1..4)]} :
       LET sw == k \in {"hyphen", "and", "hyphenmin"} /\ VLt(b, a)
       IN reqs' = Append(reqs, [n |-> IF al THEN "q" ELSE "p", p |-> "p", t |-> k, k |-> "prod",
                              v |-> IF sw THEN b ELSE a, w |-> IF sw THEN a ELSE b,
                              g |-> IF k = "tag" THEN g ELSE ""])
  /\ UNCHANGED <<vers, tags>>

Finish ==
  /\ step = NPub + 4 + NReq /\ step' = step + 1
  /\ PrintT("@@" \o ToJson([uni |-> [vers |-> vers, tags |-> tags],
                            reqs |-> reqs, deftag |-> IF Chance(70) THEN "latest" ELSE TagNames[Rnd(2..4)]]))
  /\ UNCHANGED <<vers, tags, reqs>>

GNext == Publish \/ (\E i \in 1..4 : SetTag(i)) \/ Ask \/ Finish
=============================================================================
