---------------------------- MODULE ExtractTrace ----------------------------
(***************************************************************************)
(* Checks recorded installations of packages against what their tarballs    *)
(* mean, in the order they happened.                                        *)
(*  integrity  what doesn't match the integrity known for it isn't          *)
(*             installed, and nothing of it                                 *)
(*  same       however it comes, from wherever, it's the same files         *)
(*  escape     nothing is touched outside of a package's own directory      *)
(*  share      what's done to a package with scripts does not matter to any *)
(*             other                                                        *)
(***************************************************************************)
EXTENDS Extract, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
Part == IOEnv.PART

VARIABLES l, bad

FilesOf(fs) == { [path |-> fs[i].path, cont |-> fs[i].cont, exec |-> fs[i].exec, read |-> fs[i].read] : i \in DOMAIN fs }

NoMode(S) == { [path |-> x.path, cont |-> x.cont] : x \in S }

\* What the registry was serving may have ended up in the cache before
Before(x, i, P(_)) == \E j \in 1..(i - 1) : x.steps[j].op = "install" /\ P(x.steps[j])
FetchedOk(s, p) == s.p = p /\ s.outcome = "ok" /\ s.cache

\* The integrity of a package that has none on record is not known
Unchecked(T) == T.integ = "none"
\* ...but that it isn't a tarball at all can be told
Obvious(sv) == sv \in {"empty", "html", "trunc", "cut"}

Install(x, i) ==
  LET s == x.steps[i]
      T == x.pkgs[s.p]
      got == TLCEval(FilesOf(s.files))
      want == TLCEval(Expected(T))
      hostile == Hostile(T)
      cached == s.cache /\ Before(x, i, LAMBDA q : FetchedOk(q, s.p))
      good == s.serve = "good"
      missing == want \ got
      extra == got \ want
      say(k, S) == { <<i, k, f.path>> : f \in S }
  IN [ integrity |->
       (IF s.outcome = "ok" /\ ~ Unchecked(T) /\ ~ good /\ ~ cached THEN { <<i, "installed what doesn't match", s.serve>> } ELSE {})
       \cup (IF s.outcome = "ok" /\ Unchecked(T) /\ Obvious(s.serve) /\ ~ cached THEN { <<i, "installed what's broken", s.serve>> } ELSE {})
       \cup (IF ~ Unchecked(T) /\ ~ hostile THEN { <<i, "content from elsewhere", s.serve, f.path>> : f \in { f \in got : f.cont = -1 } } ELSE {})
       \cup (IF s.outcome = "ok" /\ ~ Unchecked(T) /\ ~ good /\ ~ hostile THEN say("not what the integrity says", missing \cup extra) ELSE {})
       \cup (IF s.outcome # "ok" /\ good /\ ~ hostile THEN { <<i, "refused", T.integ, s.outcome>> } ELSE {}),
       same |->
       IF hostile THEN {}
       ELSE (IF s.outcome = "ok" /\ (good \/ ~ Unchecked(T)) THEN say("missing", missing) \cup say("extra", extra) ELSE {})
            \cup (IF s.outcome # "ok" /\ good THEN { <<i, "failed", s.outcome>> } ELSE {}),
       escape |->
       (IF s.escaped THEN { <<i, "escaped">> } ELSE {})
       \cup (IF s.outcome \in {"hang", "panic"} THEN { <<i, s.outcome>> } ELSE {})
       \cup (IF ~ hostile \/ s.outcome # "ok" \/ ~ good THEN {} ELSE {})
       \cup { <<i, "link", f.path>> : f \in { f \in got : f.cont = -2 } },
       share |->
       (IF HasScripts(T) /\ s.outcome = "ok" /\ (good \/ ~ Unchecked(T)) THEN { <<i, "shared", s.files[j].path>> : j \in { j \in DOMAIN s.files : s.files[j].shared } } ELSE {}) ]

Apply(x, i) ==
  LET s == x.steps[i]
      misnamed == \E p \in Range(x.pkgs) : ~ p.named
      wrong == UNION { LET T == x.pkgs[s.places[k].p]
                           dull(S) == { [path |-> f.path, cont |-> f.cont, exec |-> f.exec, read |-> f.read \/ IsBin(T, f.path)] : f \in S }
                           got == dull(FilesOf(s.places[k].files))
                           want == dull(Expected(T))
                       IN IF Hostile(T) THEN {} ELSE
                          { <<i, "missing", T.name, f.path>> : f \in want \ got } \cup { <<i, "extra", T.name, f.path>> : f \in got \ want }
                       : k \in DOMAIN s.places }
      fair == \A p \in Range(x.pkgs) : ~ Hostile(p)
  IN [ integrity |-> {}, share |-> {},
       same |-> (IF s.outcome = "ok" THEN wrong ELSE {}) \cup (IF fair /\ s.outcome # "ok" THEN { <<i, "failed", s.outcome>> } ELSE {}),
       escape |-> (IF s.escaped THEN { <<i, "escaped">> } ELSE {})
                  \cup (IF s.outcome \notin {"ok", "error"} THEN { <<i, s.outcome>> } ELSE {})
                  \cup (IF misnamed /\ s.outcome = "ok" THEN { <<i, "installed under such a name">> } ELSE {})
                  \cup (IF s.outcome = "ok" THEN wrong ELSE {}) ]

\* What a lockfile says about a package's integrity
InLock(T, how) == IF how = "npm" THEN T.integ \in {"sha512", "sha1", "sha256", "both", "bothbad1", "many", "sha512"} ELSE T.integ \notin {"none", "lock"}
Swap(x, i) ==
  LET s == x.steps[i]
      checked == { k \in DOMAIN s.places : InLock(x.pkgs[s.places[k].p], s.how) /\ ~ Hostile(x.pkgs[s.places[k].p]) }
      got(k) == NoMode(FilesOf(s.places[k].files))
      want(k) == NoMode(Expected(x.pkgs[s.places[k].p]))
  IN [k \in {"integrity", "same", "escape", "share"} |->
       IF k # "integrity" \/ s.first # "ok" THEN {}
       ELSE (IF s.outcome = "ok" THEN { <<i, "installed what the lockfile doesn't match", s.how, s.serve, x.pkgs[s.places[c].p].integ>> : c \in { c \in checked : got(c) # want(c) } } ELSE {})
            \cup UNION { { <<i, "content from elsewhere", s.serve, f.path>> : f \in { f \in got(c) : f.cont = -1 } } : c \in checked } ]

Problems(x) == UNION { LET s == x.steps[i] IN
                       IF s.op = "install" THEN Install(x, i)[Part] ELSE IF s.op = "apply" THEN Apply(x, i)[Part] ELSE IF s.op = "swap" THEN Swap(x, i)[Part] ELSE {} : i \in DOMAIN x.steps }

Init == l = 1 /\ bad = 0
Check ==
  /\ l <= Len(Trace)
  /\ LET ps == Problems(Trace[l])
     IN /\ bad' = IF ps = {} THEN bad ELSE bad + 1
        /\ IF ps = {} THEN TRUE ELSE PrintT("@@" \o ToJson([line |-> l, problems |-> ps]))
  /\ l' = l + 1
Next == Check
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
