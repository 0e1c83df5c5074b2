------------------------------ MODULE LockTrace ------------------------------
(***************************************************************************)
(* Checks recorded lockfile histories: resolve, write the lockfile, read   *)
(* it, let the registry move on, resolve with the lockfile, resolve in     *)
(* locked mode.                                                            *)
(***************************************************************************)
EXTENDS Tree, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Part == IOEnv.PART     \* "same" (C04) or "locked" (C05)

VARIABLES l, bad

TreeOf(t) == { [path |-> t[i].path, p |-> t[i].p, v |-> t[i].v] : i \in DOMAIN t }
Full(t) == { [path |-> t[i].path, p |-> t[i].p, v |-> t[i].v, sri |-> t[i].sri] : i \in DOMAIN t }

(* which entries of two locks differ *)
Diff(a, b) == LET A == Range(a.packages) B == Range(b.packages) IN
              { x.path : x \in (A \ B) \cup (B \ A) } \cup (IF a.root = b.root THEN {} ELSE { <<>> })
                \cup (IF a.version = b.version THEN {} ELSE { <<"version">> })
TreeDiff(a, b) == (Full(a) \ Full(b)) \cup (Full(b) \ Full(a))

(* requirements met in a tree resolved with lockfile lock1: a tag may mean  *)
(* what it meant when that was written                                      *)
UnmetLocked(x, T) ==
  { nd \in UnmetIn(x.uni2, x.root2, T) :
      LET q == Lookup(T, nd[1], nd[2].n)
      IN q = Missing \/ ~ Meets(x.uni, At(T, q).p, At(T, q).v, nd[2], DefTag) }

Problems(x) ==
  IF x.outcome[1] = "unreadable" THEN { <<"unreadable", x.outcome[2]>> }
  ELSE IF x.outcome[1] # "ok" THEN {}
  ELSE CASE Part = "same" ->
      { <<"lost", p>> : p \in Diff(x.lock1, x.lock1r) }
      \cup (IF x.rewrite THEN {} ELSE { <<"rewritten differently">> })
      \cup (IF x.root2 # x.root
            THEN IF x.outcome2[1] = "ok" THEN { <<"unmet", nd[1], nd[2].n>> : nd \in UnmetLocked(x, TreeOf(x.tree2)) } ELSE {}
            ELSE IF x.outcome2[1] # "ok" THEN { <<"failed", x.outcome2>> }
            ELSE { <<"changed", d.path, d.v>> : d \in TreeDiff(x.tree1, x.tree2) }
                 \cup (IF x.samebytes THEN {} ELSE { <<"bytes">> }))
    [] Part = "locked" ->
      LET right == x.outcome2[1] = "ok" /\ Diff(x.lock1, x.lock2) = {}
      IN (IF right = (x.outcome3[1] = "ok") THEN {}
          ELSE IF x.outcome2[1] \in {"ok", "error"} \/ x.outcome3[1] = "ok" THEN { <<"locked", x.outcome2, x.outcome3>> } ELSE {})
         \cup (IF x.outcome3[1] = "ok" /\ TreeDiff(x.tree3, x.tree1) # {} THEN { <<"locked to another tree">> } ELSE {})
         \cup (IF x.outcome2[1] = "ok" /\ x.lockstays /\ x.outcome4[1] # "ok" THEN { <<"refused", x.outcome4>> } ELSE {})

Init == l = 1 /\ bad = 0
Check ==
  /\ l <= Len(Trace)
  /\ LET ps == Problems(Trace[l])
     IN /\ bad' = IF ps = {} THEN bad ELSE bad + 1
        /\ IF ps = {} THEN TRUE ELSE PrintT("@@" \o ToJson([line |-> l, problems |-> ps]))
  /\ l' = l + 1
Next == Check
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
