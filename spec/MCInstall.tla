------------------------------ MODULE MCInstall ------------------------------
(***************************************************************************)
(* The procedure of an apply, as an algorithm working on node_modules, in   *)
(* small steps any of which may be the last (killed, or failing): forget    *)
(* the record of what is installed, prune, extract what is missing, run     *)
(* preinstall, link bins, run the other scripts, record what is installed,  *)
(* write the lockfile.  Between applies the project's manifest and layout   *)
(* may change, and others may add to or remove from node_modules.           *)
(* What a place holds is only looked at through the record of the last      *)
(* complete apply: a package is kept exactly if that record vouches for it. *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC, IOUtils

Pkgs == IF "MC_SMALL" \in DOMAIN IOEnv THEN {"p"} ELSE {"p", "q"}
Vers == {1, 2}
None == 0
Modes == {"hoisted", "isolated"}

VARIABLES want,      \* the manifest: package -> version, or None
          mode,
          pc, todo,  \* where the running apply is, and what is left to do there
          place,     \* <<mode, package>> -> [v, state]: state of what is there
          bin,       \* package -> version its bin entry was made for, or None
          meta,      \* the record: [mode, want] or "none"
          lock,      \* the lockfile: want, or "none"
          work,      \* what the running apply did that another need not do again
          broken,    \* an apply ended half-way since the last complete one
          tampered   \* with the inside of something installed, since node_modules was last cleared

vars == <<want, mode, pc, todo, place, bin, meta, lock, work, broken, tampered>>

Empty == [v |-> None, state |-> "absent"]
Wants == [Pkgs -> {None} \cup Vers]
Listed(w) == { p \in Pkgs : w[p] # None }

(* the bug to be ruled out: not to forget the record first *)
Forgets == ~ ("MC_KEEPMETA" \in DOMAIN IOEnv)

Init == /\ want \in Wants /\ mode \in Modes /\ pc = "idle" /\ todo = {}
        /\ place = [x \in Modes \X Pkgs |-> Empty] /\ bin = [p \in Pkgs |-> None]
        /\ meta = <<>> /\ lock = <<>> /\ work = FALSE /\ broken = FALSE /\ tampered = FALSE

(* ---- between applies -------------------------------------------------- *)
Edit == /\ pc = "idle" /\ want' \in Wants /\ mode' \in Modes
        /\ UNCHANGED <<pc, todo, place, bin, meta, lock, work, broken, tampered>>
(* whole entries come and go; but nobody fakes a package that is recorded as installed *)
Recorded(x) == meta # <<>> /\ meta[1] = x[1] /\ meta[2][x[2]] # None
Meddle == /\ pc = "idle"
          /\ \E x \in Modes \X Pkgs :
               /\ place[x].state # "absent" \/ ~ Recorded(x)
               /\ place' = [place EXCEPT ![x] = IF @.state = "absent" THEN [v |-> None, state |-> "foreign"] ELSE Empty]
          /\ UNCHANGED <<want, mode, pc, todo, bin, meta, lock, work, broken, tampered>>
LoseMeta == pc = "idle" /\ meta' = <<>> /\ UNCHANGED <<want, mode, pc, todo, place, bin, lock, work, broken, tampered>>
LoseLock == pc = "idle" /\ lock' = <<>> /\ UNCHANGED <<want, mode, pc, todo, place, bin, meta, work, broken, tampered>>

(* the inside of what is installed changes, which an apply does not look at *)
Reapplies == "MC_REAPPLY" \in DOMAIN IOEnv
Tamper == /\ pc = "idle" /\ Reapplies /\ tampered' = TRUE
          /\ \E x \in Modes \X Pkgs : place[x].state \notin {"absent", "foreign"} /\ place' = [place EXCEPT ![x].state = "tampered"]
          /\ UNCHANGED <<want, mode, pc, todo, bin, meta, lock, work, broken>>

(* ---- a reapply clears everything first, bit by bit in any order ---------- *)
(* (the bug to be ruled out: not to forget the record before anything else)   *)
Reapply == /\ pc = "idle" /\ Reapplies /\ pc' = "clear" /\ work' = FALSE
           /\ meta' = IF "MC_CLEARANY" \in DOMAIN IOEnv THEN meta ELSE <<>>
           /\ UNCHANGED <<want, mode, todo, place, bin, lock, broken, tampered>>
Clear == /\ pc = "clear"
         /\ \/ /\ \E x \in Modes \X Pkgs : /\ place[x].state # "absent"
                                          /\ place' = [place EXCEPT ![x] = IF @.state = "foreign" \/ @.state = "partial" THEN Empty ELSE [@ EXCEPT !.state = "partial"]]
               /\ UNCHANGED <<pc, todo, bin, meta, tampered>>
            \/ meta # <<>> /\ meta' = <<>> /\ UNCHANGED <<pc, todo, place, bin, tampered>>
            \/ \E p \in Pkgs : bin[p] # None /\ bin' = [bin EXCEPT ![p] = None] /\ UNCHANGED <<pc, todo, place, meta, tampered>>
            \/ /\ meta = <<>> /\ (\A x \in Modes \X Pkgs : place[x] = Empty) /\ (\A p \in Pkgs : bin[p] = None)
               /\ pc' = "extract" /\ todo' = { x \in Modes \X Pkgs : x[1] = mode /\ want[x[2]] # None }
               /\ tampered' = FALSE /\ UNCHANGED <<place, bin, meta>>
         /\ UNCHANGED <<want, mode, lock, work, broken>>

(* ---- an apply ---------------------------------------------------------- *)
Here == { x \in Modes \X Pkgs : x[1] = mode }
(* vouched for by the record, and there *)
Kept(x) == /\ meta # <<>> /\ meta[1] = mode /\ x[1] = mode /\ want[x[2]] # None
           /\ meta[2][x[2]] = want[x[2]] /\ place[x].state # "absent"
Changes == \E x \in Modes \X Pkgs : ~ Kept(x) /\ (place[x].state # "absent" \/ (x \in Here /\ want[x[2]] # None))
Start == /\ pc = "idle" /\ pc' = "prune" /\ work' = FALSE
         /\ todo' = { x \in Modes \X Pkgs : place[x].state # "absent" /\ ~ Kept(x) }
         /\ meta' = IF Forgets /\ Changes
                    THEN <<>> ELSE meta
         /\ UNCHANGED <<want, mode, place, bin, lock, broken, tampered>>
Prune == /\ pc = "prune"
         /\ IF todo = {}
            THEN /\ pc' = "extract" /\ UNCHANGED place
                 /\ todo' = { x \in Here : want[x[2]] # None /\ place[x].state = "absent" }
            ELSE \E x \in todo : todo' = todo \ {x} /\ place' = [place EXCEPT ![x] = Empty] /\ UNCHANGED pc
         /\ UNCHANGED <<want, mode, bin, meta, lock, work, broken, tampered>>
(* files appear one by one *)
Extract == /\ pc = "extract"
           /\ IF todo = {} THEN pc' = "pre" /\ todo' = { x \in Here : place[x].state = "whole" } /\ UNCHANGED <<place, work>>
              ELSE \E x \in todo :
                     /\ place' = [place EXCEPT ![x] = [v |-> want[x[2]], state |-> IF @.state = "partial" THEN "whole" ELSE "partial"]]
                     /\ todo' = IF place[x].state = "partial" THEN todo \ {x} ELSE todo
                     /\ work' = TRUE /\ UNCHANGED pc
           /\ UNCHANGED <<want, mode, bin, meta, lock, broken, tampered>>
Pre == /\ pc = "pre"
       /\ IF todo = {} THEN /\ pc' = "bins" /\ todo' = Here /\ UNCHANGED <<place, work>>
                            /\ bin' = [p \in Pkgs |-> None]                          \* cleared
          ELSE \E x \in todo : /\ place' = [place EXCEPT ![x].state = "pre"]
                               /\ todo' = todo \ {x} /\ work' = TRUE /\ UNCHANGED <<pc, bin>>
       /\ UNCHANGED <<want, mode, meta, lock, broken, tampered>>
Bins == /\ pc = "bins"
        /\ IF todo = {} THEN pc' = "post" /\ todo' = { x \in Here : place[x].state = "pre" } /\ UNCHANGED bin
           ELSE \E x \in todo : /\ bin' = [bin EXCEPT ![x[2]] = want[x[2]]]
                                /\ todo' = todo \ {x} /\ UNCHANGED pc
        /\ UNCHANGED <<want, mode, place, meta, lock, work, broken, tampered>>
Post == /\ pc = "post"
        /\ IF todo = {} THEN pc' = "record" /\ UNCHANGED <<place, todo, work>>
           ELSE \E x \in todo : /\ place' = [place EXCEPT ![x].state = "built"]
                                /\ todo' = todo \ {x} /\ work' = TRUE /\ UNCHANGED pc
        /\ UNCHANGED <<want, mode, bin, meta, lock, broken, tampered>>
Record == /\ pc = "record" /\ pc' = "lock" /\ meta' = <<mode, want>>
          /\ UNCHANGED <<want, mode, todo, place, bin, lock, work, broken, tampered>>
WriteLock == /\ pc = "lock" /\ pc' = "done" /\ lock' = <<want>>
             /\ UNCHANGED <<want, mode, todo, place, bin, meta, work, broken, tampered>>
Finish == /\ pc = "done" /\ pc' = "idle" /\ broken' = FALSE
          /\ UNCHANGED <<want, mode, todo, place, bin, meta, lock, work, tampered>>
(* killed, or given up after an error *)
Stop == /\ pc \notin {"idle", "done"} /\ pc' = "idle" /\ todo' = {} /\ broken' = TRUE
        /\ UNCHANGED <<want, mode, place, bin, meta, lock, work, tampered>>

Next == Tamper \/ Reapply \/ Clear \/ Edit \/ Meddle \/ LoseMeta \/ LoseLock \/ Start \/ Prune \/ Extract \/ Pre \/ Bins \/ Post
          \/ Record \/ WriteLock \/ Finish \/ Stop
Spec == Init /\ [][Next]_vars

(* ---- what must hold ------------------------------------------------------ *)
(* C07, C08, C11: a completed apply left exactly what is wanted, all built   *)
Converged ==
  (pc = "done" /\ ~ tampered) => \A x \in Modes \X Pkgs :
     place[x] = IF x[1] = mode /\ want[x[2]] # None THEN [v |-> want[x[2]], state |-> "built"] ELSE Empty
(* C10 *)
Linked == pc = "done" => bin = want
(* C25 *)
LockTells == pc = "done" => lock = <<want>>
LockLast == [][lock' # lock => lock' = <<>> \/ (pc = "lock" /\ (tampered \/ \A x \in Here : want[x[2]] # None => place[x].state = "built"))]_vars
(* C11: the record never vouches for what is not complete *)
RecordTrue == (meta # <<>> /\ ~ tampered) => \A x \in Modes \X Pkgs :
                (x[1] = meta[1] /\ place[x].state \notin {"absent", "foreign"} /\ meta[2][x[2]] # None /\ pc = "idle")
                  => place[x] = [v |-> meta[2][x[2]], state |-> "built"]
(* C09: an apply of what is already there does no work *)
Idle == [][(pc = "idle" /\ pc' = "prune" /\ meta = <<mode, want>> /\ (\A x \in Modes \X Pkgs :
             place[x] = IF x[1] = mode /\ want[x[2]] # None THEN [v |-> want[x[2]], state |-> "built"] ELSE Empty))
             => todo' = {} /\ meta' = meta]_vars
=============================================================================
