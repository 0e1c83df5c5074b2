---------------------------- MODULE ResolverTrace ----------------------------
(***************************************************************************)
(* Checks recorded resolutions: each line is a scenario (registry, project,*)
(* answer order) and what the real resolver made of it.                    *)
(***************************************************************************)
EXTENDS Tree, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Part == IOEnv.PART     \* "sound" (C01) or "shape" (C02)

VARIABLES l, bad
tvars == <<l, bad>>

TreeOf(x) == { [path |-> x.tree[i].path, p |-> x.tree[i].p, v |-> x.tree[i].v] : i \in DOMAIN x.tree }

Problems(x) ==
  LET T == TreeOf(x) IN
  CASE Part = "sound" ->
         IF x.outcome[1] # "ok" THEN {}
         ELSE { <<"unmet", nd[1], nd[2].n, nd[2].p, nd[2].t, nd[2].v, Lookup(T, nd[1], nd[2].n)>> : nd \in UnmetIn(x.uni, x.root, T) }
              \cup { <<"version-label", y.path>> : y \in { z \in Range(x.tree) : z.ver # z.v } }
    [] Part = "shape" ->
         IF x.outcome[1] = "ok"
         THEN (IF Unique(T) /\ Cardinality(T) = Len(x.tree) THEN {} ELSE {<<"two at one place">>})
              \cup (IF Rooted(T) THEN {} ELSE {<<"no parent">>})
              \cup { <<"useless", q>> : q \in Useless(x.uni, x.root, T) }
              \cup (IF Sound(x.uni, x.root, T) THEN { <<"sunk", q>> : q \in Sunk(x.uni, x.root, T) } ELSE {})
         ELSE IF x.outcome[1] = "error" /\ ~ Resolvable(x.uni, x.root) THEN {}
         \* conflicting cycles: reported, or found to take very long, but never more
         ELSE IF x.outcome[1] \in {"error", "hang"} /\ MayNestForever(x.uni, x.root) THEN {}
         ELSE { <<"failed", x.outcome>> }

Init == l = 1 /\ bad = 0
Check ==
  /\ l <= Len(Trace)
  /\ LET ps == Problems(Trace[l])
     IN /\ bad' = IF ps = {} THEN bad ELSE bad + 1
        /\ IF ps = {} THEN TRUE ELSE PrintT("@@" \o ToJson([line |-> l, problems |-> ps]))
  /\ l' = l + 1
Next == Check
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
NoneBad == TRUE
=============================================================================
