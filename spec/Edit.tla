-------------------------------- MODULE Edit --------------------------------
(***************************************************************************)
(* A manifest and what adding and removing dependencies makes of it.          *)
(*                                                                         *)
(* M maps each section ("prod", "dev", "opt", "peer") to the sequence of        *)
(* [n |-> name, s |-> requirement] it lists; everything else in the manifest   *)
(* never changes.                                                           *)
(***************************************************************************)
EXTENDS Semver, Sequences

Sections == {"prod", "dev", "opt", "peer"}
Without(q, n) == SelectSeq(q, LAMBDA e : e.n # n)
Removed(M, n) == [k \in Sections |-> Without(M[k], n)]
Added(M, k, e) == LET R == Removed(M, e.n) IN [R EXCEPT ![k] = Append(@, e)]
Lists(M, n) == { k \in Sections : \E i \in DOMAIN M[k] : M[k][i].n = n }

RECURSIVE RemovedAll(_, _)
RemovedAll(M, ns) == IF ns = <<>> THEN M ELSE RemovedAll(Removed(M, Head(ns)), Tail(ns))
RECURSIVE AddedAll(_, _, _)
AddedAll(M, k, es) == IF es = <<>> THEN M ELSE AddedAll(Added(M, k, Head(es)), k, Tail(es))

\* How a version is written
VerStr(v) == ToString(v[1]) \o "." \o ToString(v[2]) \o "." \o ToString(v[3]) \o (IF v[4] = 0 THEN "" ELSE "-beta." \o ToString(v[4]))
\* What's written for a package chosen for the request d
Written(d, prefix, v) == (IF d.n = d.p THEN "" ELSE "npm:" \o d.p \o "@") \o prefix \o VerStr(v)
Prefixes == [caret |-> "^", tilde |-> "~", exact |-> "", gte |-> ">="]

\* Two manifests list the same: in each section the same entries, those not in ns in the same order
Same(M, N, ns) == \A k \in Sections :
  /\ SelectSeq(M[k], LAMBDA e : e.n \notin ns) = SelectSeq(N[k], LAMBDA e : e.n \notin ns)
  /\ Len(M[k]) = Len(N[k])
  /\ { M[k][i] : i \in DOMAIN M[k] } = { N[k][i] : i \in DOMAIN N[k] }
=============================================================================
