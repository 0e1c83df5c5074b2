----------------------------- MODULE SpecTrace -----------------------------
(***************************************************************************)
(* What was made of package specifiers.                                      *)
(***************************************************************************)
EXTENDS Spec, Json, IOUtils
S == INSTANCE Semver

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad

If(c, s) == IF c THEN { ToString(s) } ELSE {}
Core(x) == CASE x.k = "npm" -> [k |-> "npm", name |-> x.name]
             [] x.k = "hosted" -> [k |-> "hosted", host |-> x.host, owner |-> x.owner, repo |-> x.repo, via |-> x.via]
             [] x.k = "url" -> [k |-> "url", url |-> x.url]
             [] x.k = "ssh" -> [k |-> "ssh", ssh |-> x.ssh]
             [] x.k = "dir" -> [k |-> "dir", path |-> x.path]
             [] OTHER -> x
Inner(x) == IF x.k = "alias" THEN x.of ELSE x
Same(x, y) == IF x.k = "alias" THEN y.k = "alias" /\ x.name = y.name /\ Core(x.of) = Core(y.of) ELSE Core(x) = Core(y)

\* The requirement written: a version, a range (which is told by what it lets through), a tag, or none
Fits(d, got) == LET e == [d EXCEPT !.n = "x", !.p = "x"] IN
  CASE d.t = "none" -> got.how = "none"
    [] d.t = "tag" -> got.how = "tag" /\ got.text = d.g
    [] d.t = "exact" -> got.how = "version" /\ got.v = d.v
    [] OTHER -> got.how = "range" /\ \A i \in DOMAIN got.probes : got.probes[i].in = S!InRange(got.probes[i].v, e)
\* (Selecting by an exact version is a range of just one)
FitsSel(d, got) == IF d.t = "exact" THEN got.how = "range" /\ \A i \in DOMAIN got.probes : got.probes[i].in = (got.probes[i].v = d.v) ELSE Fits(d, got)

Problem(r) ==
  LET want == IF r.doc.k # "error" THEN r.doc ELSE Parse(r.text)
      g == r.got
      i == Inner(want)
      gi == Inner(g.x)
      home == Repository(IF r.doc.k # "error" /\ r.sel.how = "rev" THEN [i EXCEPT !.sel = <<"rev", r.sel.rev>>] ELSE i)
  IN If(g.outcome = "panic", <<"panic", r.written>>)
     \cup (IF g.outcome = "panic" \/ want.k = "unsure" THEN {}
           ELSE IF want.k = "error" THEN If(g.outcome # "error", <<"accepted", r.written, g.x>>)
           ELSE IF g.outcome = "error" THEN { ToString(<<"refused", r.written>>) }
           ELSE If(~ Same(want, g.x), <<"meaning", r.written, g.x>>)
                \cup If(~ g.back, <<"written as", r.written, g.shown>>)
                \cup If(~ g.requested, <<"asked as", r.written, g.shown>>)
                \cup (IF Same(want, g.x) THEN
                        (IF r.doc.k # "error" THEN
                           (IF i.k = "npm" THEN If(~ Fits(r.d, gi.req), <<"requirement", r.written, gi.req.how, gi.req.text>>)
                            ELSE IF i.k = "dir" THEN {}
                            ELSE If(gi.rev # (IF r.sel.how = "rev" THEN <<r.sel.rev>> ELSE <<>>), <<"revision", r.written, gi.rev>>)
                                 \cup (IF r.sel.how = "semver" THEN If(~ FitsSel(r.sel.d, gi.semver), <<"semver", r.written, gi.semver.text>>) ELSE If(gi.semver.how # "none", <<"semver", r.written>>)))
                         ELSE IF i.k \in {"hosted", "url", "ssh"} THEN
                            If(gi.rev # (IF i.sel # <<>> /\ i.sel[1] = "rev" THEN <<i.sel[2]>> ELSE <<>>), <<"revision", r.written, gi.rev>>)
                            \cup If((gi.semver.how = "none") = (i.sel # <<>> /\ i.sel[1] = "semver"), <<"semver", r.written>>)
                         ELSE IF i.k = "npm" THEN If((gi.req.how = "none") # (i.req = <<>>), <<"requirement", r.written, gi.req.how>>) ELSE {})
                        \cup (IF r.doc.k # "error" /\ i.k = "hosted" THEN If((gi.https # home.https /\ ~ (i.host = "bitbucket" /\ gi.https = "https://bitbucket.com/" \o i.owner \o "/" \o i.repo \o ".git")) \/ gi.tarball # home.tarball, <<"place", r.written, gi.https, gi.tarball>>) ELSE {})
                      ELSE {}))
Problems(x) == UNION { Problem(x.specs[j]) : j \in DOMAIN x.specs }

Init == l = 1 /\ bad = 0
Check ==
  /\ l <= Len(Trace)
  /\ LET ps == Problems(Trace[l])
     IN /\ bad' = IF ps = {} THEN bad ELSE bad + 1
        /\ IF ps = {} THEN TRUE ELSE PrintT("@@" \o ToJson([line |-> l, problems |-> ps]))
  /\ l' = l + 1
Next == Check
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
