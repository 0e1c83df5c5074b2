------------------------------ MODULE MCShared ------------------------------
(***************************************************************************)
(* Processes with one cache, step by step: each clears old logs, then       *)
(* installs a package, from the cache if it's there and whole, else from    *)
(* the registry. Packages share content. Any process may be killed between  *)
(* any two steps, and the cache may be in any state to begin with. What     *)
(* others do is never the cause of a failure, and what's installed is right. *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, IOUtils, TLC

Flag(n) == n \in DOMAIN IOEnv /\ IOEnv[n] = "1"
Small == Flag("MC_SMALL")
Procs == IF Small THEN 1..2 ELSE 1..3
Pkgs == {"p", "q"}
Contents == {"c", "d"}
Uses(k) == IF k = "p" THEN {"c", "d"} ELSE {"c"}
Retained == 1

VARIABLES content, index, logs, pr
vars == <<content, index, logs, pr>>
\* content: "none", "good", "bad";  index: of these packages it's known what they're made of
\* pr[i]: pc, pkg, todo (what's still to be placed), seen (logs listed), got (what was placed)

Init == /\ content \in [Contents -> {"none", "good", "bad"}] /\ index \in SUBSET Pkgs
        /\ logs \in SUBSET {"l1", "l2"}
        /\ \E ks \in [Procs -> Pkgs] : pr = [i \in Procs |-> [pc |-> "start", pkg |-> ks[i], todo |-> {}, seen |-> {}, got |-> {}]]

Set(i, r) == pr' = [pr EXCEPT ![i] = r]
At(i, pc) == pr[i].pc = pc
ListLogs(i) == /\ At(i, "start") /\ Set(i, [pr[i] EXCEPT !.pc = "logs", !.seen = logs]) /\ UNCHANGED <<content, index, logs>>
RemoveLog(i) == /\ At(i, "logs") /\ Cardinality(pr[i].seen) >= Retained
                /\ LET l == CHOOSE l \in pr[i].seen : TRUE IN
                   /\ logs' = logs \ {l}
                   /\ Set(i, [pr[i] EXCEPT !.seen = @ \ {l}, !.pc = IF l \notin logs /\ Flag("MC_LOGS") THEN "failed" ELSE "logs"])
                /\ UNCHANGED <<content, index>>
LogsDone(i) == At(i, "logs") /\ Cardinality(pr[i].seen) < Retained /\ Set(i, [pr[i] EXCEPT !.pc = "find"]) /\ UNCHANGED <<content, index, logs>>
Find(i) == /\ At(i, "find")
           /\ Set(i, [pr[i] EXCEPT !.pc = IF pr[i].pkg \in index THEN "cached" ELSE "fetch", !.todo = Uses(pr[i].pkg)])
           /\ UNCHANGED <<content, index, logs>>

\* One file after the other is taken from the cache and checked
Take(i) == /\ At(i, "cached") /\ pr[i].todo # {}
           /\ \E c \in pr[i].todo :
                IF content[c] = "good" \/ (content[c] = "bad" /\ Flag("MC_UNVERIFIED"))
                THEN Set(i, [pr[i] EXCEPT !.todo = @ \ {c}, !.got = @ \cup { <<c, content[c]>> }])
                ELSE Set(i, [pr[i] EXCEPT !.pc = "clean", !.todo = Uses(pr[i].pkg)])
           /\ UNCHANGED <<content, index, logs>>
\* What's known about the package is dropped, and it's fetched
Clean(i) == /\ At(i, "clean") /\ UNCHANGED logs
            /\ IF Flag("MC_CLEAN") /\ pr[i].todo # {}
               THEN \E c \in pr[i].todo : content' = [content EXCEPT ![c] = "none"] /\ Set(i, [pr[i] EXCEPT !.todo = @ \ {c}]) /\ UNCHANGED index
               ELSE index' = index \ {pr[i].pkg} /\ Set(i, [pr[i] EXCEPT !.pc = "fetch", !.todo = Uses(pr[i].pkg), !.got = {}]) /\ UNCHANGED content

\* One file after the other is put in the cache and taken from there
Put(i) == /\ At(i, "fetch") /\ pr[i].todo # {} /\ UNCHANGED <<index, logs>>
          /\ \E c \in pr[i].todo :
               IF Flag("MC_INPLACE") /\ content[c] # "good" /\ content[c] # "bad"
               THEN content' = [content EXCEPT ![c] = "bad"] /\ Set(i, [pr[i] EXCEPT !.pc = "put", !.seen = {c}])
               ELSE content' = [content EXCEPT ![c] = "good"] /\ Set(i, [pr[i] EXCEPT !.pc = "link", !.seen = {c}])
PutRest(i) == /\ At(i, "put") /\ UNCHANGED <<index, logs>>
              /\ content' = [c \in Contents |-> IF c \in pr[i].seen THEN "good" ELSE content[c]] /\ Set(i, [pr[i] EXCEPT !.pc = "link"])
Link(i) == /\ At(i, "link") /\ UNCHANGED <<content, index, logs>>
           /\ LET c == CHOOSE c \in pr[i].seen : TRUE IN
              IF content[c] = "none" THEN Set(i, [pr[i] EXCEPT !.pc = "failed"])
              ELSE Set(i, [pr[i] EXCEPT !.pc = "fetch", !.todo = @ \ {c}, !.seen = {}, !.got = @ \cup { <<c, content[c]>> }])
Index(i) == /\ At(i, "fetch") /\ pr[i].todo = {} /\ index' = index \cup {pr[i].pkg} /\ Set(i, [pr[i] EXCEPT !.pc = "done"]) /\ UNCHANGED <<content, logs>>
CachedDone(i) == /\ At(i, "cached") /\ pr[i].todo = {} /\ Set(i, [pr[i] EXCEPT !.pc = "done"]) /\ UNCHANGED <<content, index, logs>>
Kill(i) == pr[i].pc \notin {"done", "failed", "killed"} /\ Set(i, [pr[i] EXCEPT !.pc = "killed"]) /\ UNCHANGED <<content, index, logs>>

Next == \E i \in Procs : ListLogs(i) \/ RemoveLog(i) \/ LogsDone(i) \/ Find(i) \/ Take(i) \/ Clean(i) \/ Put(i) \/ PutRest(i) \/ Link(i)
                         \/ Index(i) \/ CachedDone(i) \/ Kill(i)

NobodyFails == \A i \in Procs : pr[i].pc # "failed"
Right == \A i \in Procs : pr[i].pc = "done" => pr[i].got = { <<c, "good">> : c \in Uses(pr[i].pkg) }
Sound == NobodyFails /\ Right
=============================================================================
