------------------------------ MODULE Resolver ------------------------------
(***************************************************************************)
(* The resolver: a queue of placed packages whose requirements still have  *)
(* to be looked at, requests in flight, answers that may arrive in any     *)
(* order and any grouping, and placement of each answer as high as it can  *)
(* go.                                                                     *)
(***************************************************************************)
EXTENDS Tree

VARIABLES
  uni,      \* registry content (constant during a behaviour)
  root,     \* the project's requirements
  tree,     \* placed packages
  edges,    \* [from, n, to]: requirement n of the package at from is met by the one at to
  queue,    \* locations not yet expanded
  wanted,   \* [from, d]: requirement d of the package at from waits for an answer
  phase     \* "run", "done" or "error"

rvars == <<uni, root, tree, edges, queue, wanted, phase>>

DepsAt(path) == IF path = <<>> THEN RootDeps(root)
                ELSE DepsOf(uni, At(tree, path).p, At(tree, path).v)

(* The package at q meets d, wanted from location `from`, for good: no     *)
(* package in between has a requirement of that name that q does not meet  *)
(* (what that requirement is answered with later would come to lie between *)
(* the two, and hide q).                                                   *)
MetBy(from, d, q) ==
  /\ q # Missing
  /\ \A k \in Len(q)..Len(from) :
       \A c \in DepsAt(Prefix(from, k)) :
         c.n = d.n => Meets(uni, At(tree, q).p, At(tree, q).v, c, DefTag)
  /\ Meets(uni, At(tree, q).p, At(tree, q).v, d, DefTag)

RInit(U, R) ==
  /\ uni = U /\ root = R
  /\ tree = {} /\ edges = {} /\ queue = {<<>>} /\ wanted = {} /\ phase = "run"

(* Look at the requirements of a placed package. *)
Expand(q) ==
  /\ phase = "run" /\ q \in queue
  /\ LET ds  == DepsAt(q)
         met == { d \in ds : MetBy(q, d, Lookup(tree, q, d.n)) }
     IN /\ edges' = edges \cup { [from |-> q, n |-> d.n, to |-> Lookup(tree, q, d.n)] : d \in met }
        /\ wanted' = wanted \cup { [from |-> q, d |-> d] : d \in ds \ met }
  /\ queue' = queue \ {q}
  /\ UNCHANGED <<uni, root, tree, phase>>

(* May (p, v), wanted under name n, be placed as a child of location t?    *)
(* Not if t already has such a child, if some edge found from at or below  *)
(* t passes over t, or if t's own requirement of that name is not met.     *)
Fits(t, n, p, v) ==
  /\ Append(t, n) \notin Paths(tree)
  /\ \A e \in edges : ~ ( /\ e.n = n
                          /\ IsPrefixOf(t, e.from)
                          /\ Len(e.to) <= Len(t) )
  /\ \A d \in DepsAt(t) : d.n = n => Meets(uni, p, v, d, DefTag)

(* The highest location reachable from `from` going up only through fits. *)
Highest(from, n, p, v) ==
  LET ok(k) == Fits(Prefix(from, k), n, p, v)
      ks == { k \in 0..Len(from) : \A j \in k..Len(from) : ok(j) }
  IN Prefix(from, CHOOSE k \in ks : \A j \in ks : k <= j)

(* One answer meets one waiting requirement. *)
Answer(w) ==
  /\ phase = "run" /\ w \in wanted
  /\ wanted' = wanted \ {w}
  /\ LET q == Lookup(tree, w.from, w.d.n)
         v == Select(uni, w.d, DefTag)
     IN IF MetBy(w.from, w.d, q)
        THEN /\ edges' = edges \cup { [from |-> w.from, n |-> w.d.n, to |-> q] }
             /\ UNCHANGED <<tree, queue, phase>>
        ELSE IF v = NoVersion
        THEN /\ phase' = "error"
             /\ UNCHANGED <<tree, queue, edges>>
        ELSE LET at == Append(Highest(w.from, w.d.n, w.d.p, v), w.d.n)
             IN /\ tree' = tree \cup { [path |-> at, p |-> w.d.p, v |-> v] }
                /\ edges' = edges \cup { [from |-> w.from, n |-> w.d.n, to |-> at] }
                /\ queue' = queue \cup {at}
                /\ UNCHANGED phase
  /\ UNCHANGED <<uni, root>>

Finish ==
  /\ phase = "run" /\ queue = {} /\ wanted = {}
  /\ phase' = "done"
  /\ UNCHANGED <<uni, root, tree, edges, queue, wanted>>

RNext == \/ \E q \in queue : Expand(q)
         \/ \E w \in wanted : Answer(w)
         \/ Finish

(* What has to hold *)
NeverClobbered == Unique(tree)
EdgesHold == \A e \in edges : Lookup(tree, e.from, e.n) = e.to
DoneIsGood == phase = "done" => GoodTree(uni, root, tree)
ErrorOnlyIfUnresolvable == phase = "error" => ~ Resolvable(uni, root)
=============================================================================
