------------------------------- MODULE Semver -------------------------------
(***************************************************************************)
(* Versions, ranges, dist-tags and the choice of a version.                *)
(* A version is <<major, minor, patch, pre>>; pre = 0 means a release and  *)
(* pre = k > 0 the prerelease "-beta.k".                                   *)
(* A requirement is a record with (at least) the fields                    *)
(*   p  package asked for         t  kind of requirement                   *)
(*   v  first version operand     w  second version operand                *)
(*   g  dist-tag name                                                      *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Release == 1000000   \* sorts a release after each of its prereleases

Key(v) == <<v[1], v[2], v[3], IF v[4] = 0 THEN Release ELSE v[4]>>

KeyLt(a, b) ==
  \/ a[1] < b[1]
  \/ a[1] = b[1] /\ a[2] < b[2]
  \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3]
  \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] = b[3] /\ a[4] < b[4]
KeyLe(a, b) == a = b \/ KeyLt(a, b)

VLt(a, b) == KeyLt(Key(a), Key(b))
VLe(a, b) == KeyLe(Key(a), Key(b))

IsPre(v) == v[4] # 0

(***************************************************************************)
(* A comparator set: optional lower and upper bound, as keys.              *)
(* pres: the release triples for which one of the written comparators      *)
(* carries a prerelease; only those triples' prereleases are admitted.     *)
(***************************************************************************)
None == <<>>
Bounds(lo, loInc, hi, hiInc, pres) ==
  [lo |-> lo, loInc |-> loInc, hi |-> hi, hiInc |-> hiInc, pres |-> pres]

Triple(v) == <<v[1], v[2], v[3]>>
PreTriples(S) == { Triple(x) : x \in { y \in S : IsPre(y) } }
Before(a, b, c) == <<a, b, c, 0>>      \* the bound "a.b.c-0"

CaretSet(v) ==
  Bounds(Key(v), TRUE,
         IF v[1] > 0 THEN Before(v[1] + 1, 0, 0)
         ELSE IF v[2] > 0 THEN Before(0, v[2] + 1, 0)
         ELSE Before(0, 0, v[3] + 1),
         FALSE, PreTriples({v}))

(* an empty requirement means any version, but an alias to a bare package   *)
(* name ("npm:p") means its default tag                                     *)
Kind(d) == IF d.t = "none" /\ d.n = d.p THEN "star" ELSE d.t

RangeSets(d) ==
  CASE d.t = "caret"  -> { CaretSet(d.v) }
    [] d.t = "tilde"  -> { Bounds(Key(d.v), TRUE, Before(d.v[1], d.v[2] + 1, 0), FALSE, PreTriples({d.v})) }
    [] d.t = "gte"    -> { Bounds(Key(d.v), TRUE, None, FALSE, PreTriples({d.v})) }
    [] d.t = "gt"     -> { Bounds(Key(d.v), FALSE, None, FALSE, PreTriples({d.v})) }
    [] d.t = "lte"    -> { Bounds(None, FALSE, Key(d.v), TRUE, PreTriples({d.v})) }
    [] d.t = "lt"     -> { Bounds(None, FALSE, Key(d.v), FALSE, PreTriples({d.v})) }
    [] d.t = "hyphen" -> { Bounds(Key(d.v), TRUE, Key(d.w), TRUE, PreTriples({d.v, d.w})) }
    [] d.t = "x"      -> { Bounds(Key(<<d.v[1], 0, 0, 0>>), TRUE, Before(d.v[1] + 1, 0, 0), FALSE, {}) }
    [] d.t = "xx"     -> { Bounds(Key(<<d.v[1], d.v[2], 0, 0>>), TRUE, Before(d.v[1], d.v[2] + 1, 0), FALSE, {}) }
    [] d.t = "maj"    -> { Bounds(Key(<<d.v[1], 0, 0, 0>>), TRUE, Before(d.v[1] + 1, 0, 0), FALSE, {}) }
    [] d.t = "majmin" -> { Bounds(Key(<<d.v[1], d.v[2], 0, 0>>), TRUE, Before(d.v[1], d.v[2] + 1, 0), FALSE, {}) }
    [] d.t = "caretmaj" -> { Bounds(Key(<<d.v[1], 0, 0, 0>>), TRUE, Before(d.v[1] + 1, 0, 0), FALSE, {}) }
    [] d.t = "caretmin" -> { Bounds(Key(<<d.v[1], d.v[2], 0, 0>>), TRUE,
                                    IF d.v[1] > 0 THEN Before(d.v[1] + 1, 0, 0) ELSE Before(0, d.v[2] + 1, 0), FALSE, {}) }
    [] d.t = "tildemaj" -> { Bounds(Key(<<d.v[1], 0, 0, 0>>), TRUE, Before(d.v[1] + 1, 0, 0), FALSE, {}) }
    [] d.t = "tildemin" -> { Bounds(Key(<<d.v[1], d.v[2], 0, 0>>), TRUE, Before(d.v[1], d.v[2] + 1, 0), FALSE, {}) }
    [] d.t = "and"    -> { Bounds(Key(d.v), TRUE, Key(d.w), FALSE, PreTriples({d.v, d.w})) }
    [] d.t = "hyphenmin" -> { Bounds(Key(d.v), TRUE, Before(d.w[1], d.w[2] + 1, 0), FALSE, PreTriples({d.v})) }
    [] d.t = "or"     -> { CaretSet(d.v), CaretSet(d.w) }
    [] Kind(d) = "star"   -> { Bounds(None, FALSE, None, FALSE, {}) }
    [] OTHER          -> {}

InBounds(v, b) ==
  LET k == Key(v) IN
  /\ b.lo # None => (IF b.loInc THEN KeyLe(b.lo, k) ELSE KeyLt(b.lo, k))
  /\ b.hi # None => (IF b.hiInc THEN KeyLe(k, b.hi) ELSE KeyLt(k, b.hi))
  /\ IsPre(v) => Triple(v) \in b.pres

InRange(v, d) == \E b \in RangeSets(d) : InBounds(v, b)

RangeKinds == {"caret", "tilde", "gte", "gt", "lte", "lt", "hyphen", "x", "xx", "or", "star",
               "maj", "majmin", "caretmaj", "caretmin", "tildemaj", "tildemin", "and", "hyphenmin"}
IsRange(d) == Kind(d) \in RangeKinds

(***************************************************************************)
(* A registry universe: vers is a sequence of [p, v, deps, ...] and tags a *)
(* sequence of [p, t, v].                                                  *)
(***************************************************************************)
Range(s) == { s[i] : i \in DOMAIN s }
VersionsOf(U, p) == { x.v : x \in { y \in Range(U.vers) : y.p = p } }
Exists(U, p) == VersionsOf(U, p) # {}
HasTag(U, p, t) == \E x \in Range(U.tags) : x.p = p /\ x.t = t
TagOf(U, p, t) == (CHOOSE x \in Range(U.tags) : x.p = p /\ x.t = t).v

MaxOf(S) == CHOOSE v \in S : \A w \in S : VLe(w, v)

NoVersion == <<>>

(* The version a request must be resolved to, NoVersion if it is an error. *)
Select(U, d, deftag) ==
  LET vs  == VersionsOf(U, d.p)
      dt  == IF HasTag(U, d.p, deftag) THEN TagOf(U, d.p, deftag) ELSE NoVersion
      fit == { v \in vs : InRange(v, d) }
      have(v) == IF v \in vs THEN v ELSE NoVersion
  IN CASE d.t = "exact" -> have(d.v)
       [] d.t = "tag"   -> IF HasTag(U, d.p, d.g) THEN have(TagOf(U, d.p, d.g)) ELSE NoVersion
       [] Kind(d) = "none" -> have(dt)
       [] IsRange(d)    -> IF dt # NoVersion /\ dt \in fit THEN dt
                           ELSE IF fit # {} THEN MaxOf(fit)
                           ELSE IF Kind(d) = "star" THEN have(dt)
                           ELSE NoVersion
       [] OTHER         -> NoVersion

(* Does version v of package p meet requirement d (in universe U)? *)
Meets(U, p, v, d, deftag) ==
  /\ p = d.p
  /\ CASE d.t = "exact" -> v = d.v
       [] d.t = "tag"   -> HasTag(U, p, d.g) /\ v = TagOf(U, p, d.g)
       [] Kind(d) = "none" -> HasTag(U, p, deftag) /\ v = TagOf(U, p, deftag)
       [] Kind(d) = "star"  -> InRange(v, d) \/ v = Select(U, d, deftag)
       [] OTHER         -> InRange(v, d)
=============================================================================
