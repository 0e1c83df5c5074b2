------------------------------ MODULE NpmTrace ------------------------------
(* Checks resolutions of projects that have (only) an npm lockfile. *)
EXTENDS Tree, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad

TreeOf(t) == { [path |-> t[i].path, p |-> t[i].p, v |-> t[i].v] : i \in DOMAIN t }
Exact(x) == x.how \in {"none1", "none2", "none3", "none4", "ghost"}

OldUni(x) == [x.uni EXCEPT !.tags = x.oldtags]
UnmetLocked(x, T) ==
  { nd \in UnmetIn(x.uni, x.root2, T) :
      LET q == Lookup(T, nd[1], nd[2].n)
      IN q = Missing \/ ~ ( \/ Meets(OldUni(x), At(T, q).p, At(T, q).v, nd[2], DefTag)
                            \* all there is to say what a tag meant is the lockfile
                            \/ /\ x.how \in {"drop", "stale"} /\ nd[2].t \in {"tag", "none", "star"}
                               /\ At(T, q).p = nd[2].p
                               /\ \E e \in Range(x.lock) : e.p = At(T, q).p /\ e.v = At(T, q).v ) }
Right(x) == LET R == Range(x.right) IN { y \in R : y.path \in Reachable(OldUni(x), x.root, R) }

Problems(x) ==
  LET T == TreeOf(x.tree) IN
  IF Exact(x)
  THEN IF x.outcome[1] # "ok" THEN { <<"failed", x.outcome>> }
       ELSE { <<"differs", y.path, y.v>> : y \in (T \ Right(x)) \cup (Right(x) \ T) }
            \cup (IF Cardinality(T) = Len(x.tree) THEN {} ELSE { <<"twice">> })
            \cup { <<"integrity", y.path>> : y \in { z \in Range(x.tree) : ~ x.noint /\ z.sri # z.wantsri } }
  ELSE IF x.outcome[1] = "ok"
       THEN { <<"unmet", nd[1], nd[2].n>> : nd \in UnmetLocked(x, T) }
            \cup (IF Cardinality(Paths(T)) = Len(x.tree) THEN {} ELSE { <<"twice">> })
       ELSE IF x.outcome[1] = "error" /\ (~ Resolvable(x.uni, x.root2) \/ ~ Resolvable(OldUni(x), x.root2)) THEN {}
       ELSE IF x.outcome[1] \in {"error", "hang"} /\ MayNestForever(x.uni, x.root2) THEN {}
       ELSE { <<"failed", x.outcome>> }

Init == l = 1 /\ bad = 0
Check ==
  /\ l <= Len(Trace)
  /\ LET ps == Problems(Trace[l])
     IN /\ bad' = IF ps = {} THEN bad ELSE bad + 1
        /\ IF ps = {} THEN TRUE ELSE PrintT("@@" \o ToJson([line |-> l, problems |-> ps]))
  /\ l' = l + 1
Next == Check
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
