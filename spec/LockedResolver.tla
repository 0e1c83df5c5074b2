--------------------------- MODULE LockedResolver ---------------------------
(***************************************************************************)
(* Resolution with a lockfile.  A first resolution writes the lockfile;    *)
(* the registry moves on; a second resolution consults the lockfile before *)
(* anything else.                                                          *)
(***************************************************************************)
EXTENDS Resolver

VARIABLES lock,    \* the tree written down, or Nothing
          uni0     \* the registry content of that time
lvars == <<rvars, lock, uni0>>
Nothing == {[path |-> <<"nothing">>, p |-> "", v |-> NoVersion]}

LRInit(U, R) == RInit(U, R) /\ lock = Nothing /\ uni0 = U
HasLock == lock # Nothing

(* The registry publishes and re-tags; the project is resolved again. *)
MoveOn(U2) ==
  /\ phase = "done" /\ ~ HasLock
  /\ lock' = tree /\ uni' = U2
  /\ tree' = {} /\ edges' = {} /\ queue' = {<<>>} /\ wanted' = {} /\ phase' = "run"
  /\ UNCHANGED <<root, uni0>>

(* The lockfile knows the package at q and what its requirements were. *)
Recorded(q) == q = <<>> \/ (q \in Paths(lock) /\ At(lock, q).p = At(tree, q).p /\ At(lock, q).v = At(tree, q).v)
(* What the lockfile gives to requirement d at q, Missing if nothing. *)
LockedTo(q, d) ==
  LET c == Lookup(lock, q, d.n)
  IN IF c = Missing THEN Missing
     ELSE IF \/ d.t \notin {"tag", "none", "star"} /\ Meets(uni, At(lock, c).p, At(lock, c).v, d, DefTag)
             \/ d.t \in {"tag", "none", "star"} /\ Recorded(q) /\ At(lock, c).p = d.p
          THEN c ELSE Missing
Same(c) == c \in Paths(tree) /\ At(tree, c) = At(lock, c)

LExpand(q) ==
  /\ HasLock /\ phase = "run" /\ q \in queue
  /\ LET ds == DepsAt(q)
         found(d) == Lookup(tree, q, d.n)
         put  == { d \in ds : LockedTo(q, d) # Missing /\ (found(d) = Missing \/ Len(found(d)) < Len(LockedTo(q, d))) }
         keep == { d \in ds \ put : \/ LockedTo(q, d) # Missing /\ found(d) = LockedTo(q, d) /\ Same(found(d))
                                    \/ LockedTo(q, d) = Missing /\ MetBy(q, d, found(d)) }
     IN /\ tree' = tree \cup { At(lock, LockedTo(q, d)) : d \in put }
        /\ queue' = (queue \ {q}) \cup { LockedTo(q, d) : d \in put }
        /\ edges' = edges \cup { [from |-> q, n |-> d.n, to |-> LockedTo(q, d)] : d \in put }
                          \cup { [from |-> q, n |-> d.n, to |-> found(d)] : d \in keep }
        /\ wanted' = wanted \cup { [from |-> q, d |-> d] : d \in ds \ (put \cup keep) }
  /\ UNCHANGED <<uni, root, phase, lock, uni0>>

First == ~ HasLock /\ RNext /\ UNCHANGED <<lock, uni0>>
Second == \/ \E q \in queue : LExpand(q)
          \/ HasLock /\ (\/ \E w \in wanted : Answer(w)
                         \/ Finish) /\ UNCHANGED <<lock, uni0>>

SameTree == HasLock /\ phase = "done" => tree = lock
NeverFails == HasLock => phase # "error"
NothingAsked == HasLock => wanted = {}
=============================================================================
