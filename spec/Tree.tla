-------------------------------- MODULE Tree --------------------------------
(***************************************************************************)
(* The node_modules hierarchy as a value, and what makes one right.        *)
(* A tree is a set of records with fields path (sequence of names, <<>> is *)
(* the project and is not an element), p (package) and v (version).        *)
(***************************************************************************)
EXTENDS Semver

DefTag == "latest"

Paths(T) == { x.path : x \in T }
At(T, path) == CHOOSE x \in T : x.path = path
Prefix(s, k) == SubSeq(s, 1, k)
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Parent(path) == Prefix(path, Len(path) - 1)

Missing == <<"?missing?">>

(* Node's lookup of name from a package at path: the path found, or Missing *)
Lookup(T, path, name) ==
  LET ks == { k \in 0..Len(path) : Append(Prefix(path, k), name) \in Paths(T) }
  IN IF ks = {} THEN Missing
     ELSE Append(Prefix(path, CHOOSE k \in ks : \A j \in ks : j <= k), name)

(* The requirements of package p at version v; of the project itself *)
DepsOf(U, p, v) ==
  LET xs == { x \in Range(U.vers) : x.p = p /\ x.v = v }
  IN IF xs = {} THEN {} ELSE { d \in Range((CHOOSE x \in xs : TRUE).deps) : d.k \in {"prod", "opt"} }
RootDeps(root) == { d \in Range(root) : d.k \in {"prod", "opt", "dev"} }

(* all (location, requirement) pairs of the project and the tree *)
Needs(U, root, T) ==
  { <<<<>>, d>> : d \in RootDeps(root) } \cup
  UNION { { <<x.path, d>> : d \in DepsOf(U, x.p, x.v) } : x \in T }

Unique(T) == \A x, y \in T : x.path = y.path => x = y
Rooted(T) == \A x \in T : \A k \in 1..(Len(x.path) - 1) : Prefix(x.path, k) \in Paths(T)

(* (location, requirement) pairs that are not met *)
UnmetIn(U, root, T) ==
  { nd \in Needs(U, root, T) :
      LET q == Lookup(T, nd[1], nd[2].n)
      IN q = Missing \/ ~ Meets(U, At(T, q).p, At(T, q).v, nd[2], DefTag) }

(* locations reachable from the project by lookups *)
RECURSIVE Reach(_, _, _, _)
Reach(U, T, done, todo) ==
  IF todo = {} THEN done
  ELSE LET q == CHOOSE x \in todo : TRUE
           next == { Lookup(T, q, d.n) : d \in DepsOf(U, At(T, q).p, At(T, q).v) } \ {Missing}
       IN Reach(U, T, done \cup {q}, (todo \cup next) \ (done \cup {q}))
Reachable(U, root, T) ==
  Reach(U, T, {}, { Lookup(T, <<>>, d.n) : d \in RootDeps(root) } \ {Missing})
Useless(U, root, T) == Paths(T) \ Reachable(U, root, T)

(* Could the package at q be moved, with what is below it, one level up?   *)
MovedPath(q, x) == IF IsPrefixOf(q, x) THEN Append(Parent(Parent(q)), q[Len(q)]) \o SubSeq(x, Len(q) + 1, Len(x)) ELSE x
CanRise(U, root, T, q) ==
  /\ Len(q) > 1
  /\ LET up == Append(Parent(Parent(q)), q[Len(q)])
         T2 == { [x EXCEPT !.path = MovedPath(q, x.path)] : x \in T }
     IN /\ up \notin Paths(T)
        /\ \A nd \in Needs(U, root, T) :
             Lookup(T2, MovedPath(q, nd[1]), nd[2].n) = MovedPath(q, Lookup(T, nd[1], nd[2].n))
Sunk(U, root, T) == { q \in Paths(T) : CanRise(U, root, T, q) }

Sound(U, root, T) == UnmetIn(U, root, T) = {}
GoodTree(U, root, T) ==
  /\ Unique(T) /\ Rooted(T)
  /\ Sound(U, root, T)
  /\ Useless(U, root, T) = {}
  /\ Sunk(U, root, T) = {}

(* Can every requirement that can possibly come up be met at all?  Then     *)
(* resolution must succeed.                                                 *)
RECURSIVE ClosureOf(_, _, _)
ClosureOf(U, done, todo) ==
  IF todo = {} THEN done
  ELSE LET d == CHOOSE x \in todo : TRUE
           v == Select(U, d, DefTag)
           next == IF v = NoVersion THEN {} ELSE DepsOf(U, d.p, v)
       IN ClosureOf(U, done \cup {d}, (todo \cup next) \ (done \cup {d}))
Closure(U, root) == ClosureOf(U, {}, RootDeps(root))
Resolvable(U, root) == \A d \in Closure(U, root) : Select(U, d, DefTag) # NoVersion

(***************************************************************************)
(* Is it possible at all for nesting to go on for ever?  That takes a      *)
(* dependency cycle through two different packages (or versions) that are  *)
(* to be installed under one name: if each name of the cycle stands for    *)
(* one package only, nesting ends when all of them are in place.           *)
(***************************************************************************)
Placing(U, d) == { [n |-> d.n, p |-> d.p, v |-> v] :
                     v \in { w \in VersionsOf(U, d.p) : Meets(U, d.p, w, d, DefTag) } \cup
                          ({Select(U, d, DefTag)} \ {NoVersion}) }
RECURSIVE PlacedFrom(_, _, _)
PlacedFrom(U, done, todo) ==
  IF todo = {} THEN done
  ELSE PlacedFrom(U, done \cup todo,
         UNION { UNION { Placing(U, d) : d \in DepsOf(U, x.p, x.v) } : x \in todo } \ (done \cup todo))
RECURSIVE Beyond(_, _, _)
Beyond(next, done, todo) ==
  IF todo = {} THEN done
  ELSE Beyond(next, done \cup todo, UNION { next[x] : x \in todo } \ (done \cup todo))
MayNestForever(U, root) ==
  LET all   == TLCEval(PlacedFrom(U, {}, UNION { Placing(U, d) : d \in RootDeps(root) }))
      next  == TLCEval([x \in all |-> UNION { Placing(U, d) : d \in DepsOf(U, x.p, x.v) }])
      after == TLCEval([x \in all |-> Beyond(next, {}, next[x])])
  IN \E x \in all : x \in after[x] /\
       \E y \in after[x] : y.n = x.n /\ y # x /\ x \in after[y]
=============================================================================
