---------------------------- MODULE InstallTrace ----------------------------
(***************************************************************************)
(* Checks recorded histories of a project (see InstallGen).                *)
(***************************************************************************)
EXTENDS Install, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Part == IOEnv.PART

VARIABLES l, bad

Applies(x) == { i \in DOMAIN x.steps : x.steps[i].op = "apply" }
Acts(s) == ~ s.flags.lockonly      \* touches node_modules
Installed(s) == s.obs.outcome = "ok" /\ Acts(s)
(* the tree that was installed, as recorded by the lockfile, or failing that in node_modules *)
TreeIn(s) == IF s.flags.nolock THEN TreeOf(s.obs.meta) ELSE TreeOf(s.obs.lock)

LastBefore(S, i) == LET is == { j \in S : j < i } IN IF is = {} THEN 0 ELSE CHOOSE j \in is : \A k \in is : k <= j

(* installed without errors, but was it the right thing? *)
Layout(x, i, mode) ==
  LET s == x.steps[i] T == TreeIn(s) IN
  IF ~ Installed(s) \/ s.mode # mode THEN {}
  ELSE { <<i>> \o w : w \in Wrong(mode, x.uni, s.root, T, s.obs.disk) }
       \cup { <<i, "unmet", nd[1], nd[2].n>> : nd \in UnmetIn(x.uni, s.root, T) }
       \cup (IF s.obs.elsewhere THEN {} ELSE { <<i, "changed what a link led to">> })

(* nothing stands in the way of an apply like this *)
Fair(x, i) == LET s == x.steps[i] IN s.fault = "" /\ ~ s.flags.locked
                 /\ Resolvable(x.uni, s.root) /\ ~ MayNestForever(x.uni, s.root)
Refused(x, i, mode) ==
  LET s == x.steps[i] IN
  IF s.mode = mode /\ s.obs.outcome # "ok" /\ (s.obs.outcome = "panic" \/ Fair(x, i)
       \/ (s.obs.outcome = "hang" /\ ~ MayNestForever(x.uni, s.root)))
  THEN { <<i, "failed", s.obs.outcome>> } ELSE {}

(* the step repeats the one before it *)
Repeats(x, i) == /\ i > 1 /\ x.steps[i].cmd = "apply" /\ x.steps[i-1].op = "apply"
                 /\ [f \in {"root", "mode", "flags", "conc"} |-> x.steps[i][f]] = [f \in {"root", "mode", "flags", "conc"} |-> x.steps[i-1][f]]
                 /\ x.steps[i].fault = "" /\ x.steps[i-1].obs.outcome = "ok"
Again(x, i) ==
  LET s == x.steps[i] IN
  IF ~ Repeats(x, i) THEN {}
  ELSE (IF s.obs.outcome = "ok" THEN {} ELSE { <<i, "failed", s.obs.outcome>> })
       \cup { <<i, "changed", f>> : f \in Range(s.obs.changed) }
       \cup (IF s.obs.sameino THEN {} ELSE { <<i, "extracted again">> })
       \cup { <<i, "downloaded", f>> : f \in Range(s.obs.tarballs) }
       \cup { <<i, "ran", f>> : f \in Range(s.obs.scripts) }

Bins(x, i) ==
  LET s == x.steps[i] T == TreeIn(s) IN
  IF ~ Installed(s) \/ Wrong(s.mode, x.uni, s.root, T, s.obs.disk) # {} THEN {}
  ELSE { <<i>> \o w : w \in BinsWrong(s.mode, x.uni, s.root, T, s.obs.disk) }

(* after an apply that went wrong, the next that does not puts all right *)
Broken(x, i) == \E j \in Applies(x) : j < i /\ Acts(x.steps[j]) /\ x.steps[j].obs.outcome # "ok"
(* packages may have been left as they are before their scripts ran: told so, or only optional *)
Unscripted(x, i) == \E j \in Applies(x) : j <= i /\ x.steps[j].obs.outcome = "ok" /\
                      (x.steps[j].flags.noscripts \/ x.steps[j].fault = "script")
Repaired(x, i) ==
  LET s == x.steps[i] T == TreeIn(s) IN
  IF ~ Broken(x, i) THEN {}
  ELSE IF ~ Installed(s) THEN (IF Acts(s) /\ Fair(x, i) /\ s.obs.outcome # "ok" THEN { <<i, "failed", s.obs.outcome>> } ELSE {})
  ELSE { <<i>> \o w : w \in Wrong(s.mode, x.uni, s.root, T, s.obs.disk) }
       \cup (IF Wrong(s.mode, x.uni, s.root, T, s.obs.disk) # {} THEN {}
             ELSE { <<i>> \o w : w \in BinsWrong(s.mode, x.uni, s.root, T, s.obs.disk) })
       \cup (IF Unscripted(x, i) THEN {} ELSE { <<i>> \o w : w \in Unbuilt(x.uni, s.obs.disk) })
       \cup { <<i, "left behind", f>> : f \in Range(s.obs.rootfiles) \ {"node_modules", "package.json", "package-lock.kdl"} }

(* the lockfile: who may write it, and what it says. An apply that was     *)
(* killed may just have done so, as the last thing of all.                  *)
LastThing(x, s) ==
  /\ s.obs.outcome = "killed" /\ ~ s.flags.nolock /\ s.obs.haslock
  /\ UnmetIn(x.uni, s.root, TreeOf(s.obs.lock)) = {}
  /\ Acts(s) => /\ Wrong(s.mode, x.uni, s.root, TreeOf(s.obs.lock), s.obs.disk) = {}
                /\ BinsWrong(s.mode, x.uni, s.root, TreeOf(s.obs.lock), s.obs.disk) = {}
Lock(x, i) ==
  LET s == x.steps[i] writes == s.obs.outcome = "ok" /\ ~ s.flags.nolock IN
  (IF ~ writes /\ ~ s.obs.samelock /\ ~ LastThing(x, s) THEN { <<i, "lockfile changed">> } ELSE {})
  \cup (IF ~ writes THEN {}
        ELSE IF ~ s.obs.haslock THEN { <<i, "no lockfile">> }
        ELSE { <<i, "unmet", nd[1], nd[2].n>> : nd \in UnmetIn(x.uni, s.root, TreeOf(s.obs.lock)) }
             \cup (IF Acts(s) THEN { <<i>> \o w : w \in Wrong(s.mode, x.uni, s.root, TreeOf(s.obs.lock), s.obs.disk) } ELSE {}))
  \cup (IF s.flags.lockonly /\ ~ s.obs.samenm THEN { <<i, "node_modules changed">> } ELSE {})

(* a refused locked apply *)
Frozen(x, i) ==
  LET s == x.steps[i] IN
  IF s.flags.locked /\ s.obs.outcome = "error" /\ s.fault = "" /\ Resolvable(x.uni, s.root)
  THEN { <<i, "changed", f>> : f \in Range(s.obs.changed) }
  ELSE IF s.flags.locked /\ s.obs.outcome = "ok" /\ s.obs.hadlock /\ ~ s.obs.samelock
  THEN { <<i, "lockfile changed">> } ELSE {}

(* a reapply clears node_modules, whatever was done to it, and installs anew *)
Tampered == {"tamper", "tamper-bin", "add-file", "del-file", "built-again", "nested-stray", "no-exec"}
Dirty(x, i) == \E j \in 1..(i-1) : x.steps[j].op \in Tampered /\ x.steps[j].obs.outcome # "skipped"
                 /\ ~ \E k \in Applies(x) : j < k /\ k < i /\ x.steps[k].cmd = "reapply" /\ x.steps[k].obs.outcome = "ok"
Anew(x, i) ==
  LET s == x.steps[i] T == TreeIn(s) D == s.obs.disk
      late == s.cmd = "apply" /\ Broken(x, i) /\ ~ Dirty(x, i) IN
  IF s.cmd = "apply" THEN (IF late THEN Repaired(x, i) ELSE {})
  ELSE IF s.obs.outcome # "ok" THEN
       (IF s.obs.outcome = "panic" \/ Fair(x, i) THEN { <<i, "failed", s.obs.outcome>> } ELSE {})
       \cup (IF ~ s.obs.samelock /\ s.obs.outcome # "killed" THEN { <<i, "lockfile changed">> } ELSE {})
  ELSE (IF s.obs.elsewhere THEN {} ELSE { <<i, "changed what a link led to">> })
       \cup (IF ~ Acts(s) THEN (IF D.exists THEN { <<i, "not cleared">> } ELSE {})
             ELSE { <<i>> \o w : w \in Wrong(s.mode, x.uni, s.root, T, D) }
                  \cup { <<i, "unmet", nd[1], nd[2].n>> : nd \in UnmetIn(x.uni, s.root, T) }
                  \cup { <<i, "stray", f>> : f \in Range(D.stray) }
                  \cup (IF s.mode = "hoisted" THEN {} ELSE { <<i, "extra", e.n>> : e \in { e \in Range(D.links) : e.kind = "dir" } })
                  \cup (IF Wrong(s.mode, x.uni, s.root, T, D) # {} THEN {} ELSE { <<i>> \o w : w \in BinsWrong(s.mode, x.uni, s.root, T, D) })
                  \cup (IF s.fault = "script" THEN {}
                        ELSE IF s.flags.noscripts THEN { <<i, "built", y.id>> : y \in { y \in Places(D) : Range(y.built) # {} } }
                        ELSE { <<i>> \o w : w \in Unbuilt(x.uni, D) })
                  \cup { <<i, "left behind", f>> : f \in Range(s.obs.rootfiles) \ {"node_modules", "package.json", "package-lock.kdl"} })

Problems(x) ==
  UNION { CASE Part = "isolated" -> Layout(x, i, "isolated") \cup Refused(x, i, "isolated")
            [] Part = "hoisted"  -> Layout(x, i, "hoisted") \cup Refused(x, i, "hoisted")
            [] Part = "again"    -> Again(x, i)
            [] Part = "bins"     -> Bins(x, i)
            [] Part = "repair"   -> Repaired(x, i)
            [] Part = "anew"     -> Anew(x, i)
            [] Part = "lock"     -> Lock(x, i)
            [] Part = "frozen"   -> Frozen(x, i)
          : i \in Applies(x) }

Init == l = 1 /\ bad = 0
Check ==
  /\ l <= Len(Trace)
  /\ LET ps == Problems(Trace[l])
     IN /\ bad' = IF ps = {} THEN bad ELSE bad + 1
        /\ IF ps = {} THEN TRUE ELSE PrintT("@@" \o ToJson([line |-> l, problems |-> ps]))
  /\ l' = l + 1
Next == Check
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
