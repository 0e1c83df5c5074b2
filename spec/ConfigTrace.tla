---------------------------- MODULE ConfigTrace ----------------------------
(***************************************************************************)
(* Checks that runs do what options tell them to, whatever's the source.     *)
(***************************************************************************)
EXTENDS Config, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad

On(x, o) == Effective(x, o) = "true"
Is(x, o, v) == Effective(x, o) = v

HostOf(reg) == CASE reg = "R1" -> "127.0.0.1" [] reg = "R2" -> "127.0.0.2" [] OTHER -> "localhost"
Listed(s) == CASE s = "localhost,127.0.0.1" -> {"localhost", "127.0.0.1"} [] s = "" -> {} [] OTHER -> {s}
\* Hosts that aren't reached through a proxy
Direct(x) == LET o == Effective(x, "no-proxy-domain") IN Listed(IF o = "" THEN x.nop ELSE o)
Via(x, reg) == IF HostOf(reg) \in Direct(x) THEN "" ELSE Effective(x, "proxy-url")
\* Having a proxy, but not wanting to use any, isn't something we judge
ViaOk(x, q) == q.via = Via(x, q.reg) \/ (~ On(x, "proxy") /\ q.via = "")

Registry(x, scope) == LET e == Entry(x, "scoped-registries", scope) IN IF scope = "" \/ e = "" THEN Effective(x, "registry") ELSE e
RegOf(x, what) == CASE what = "@s/b" -> Registry(x, "@s") [] what = "@t/c" -> Registry(x, "@t") [] OTHER -> Registry(x, "")
\* Tarballs of scoped packages are wherever these are
RegsOf(x, what) == IF what = "tar" THEN { RegOf(x, w) : w \in {"a", "@s/b", "@t/c"} } ELSE { RegOf(x, what) }

Asked(x, q) ==
  LET tok == Entry(x, "auth", q.reg)
  IN (IF q.reg \notin RegsOf(x, q.what) THEN { ToString(<<"registry", q.what, q.reg, RegsOf(x, q.what)>>) } ELSE {})
     \cup (IF q.auth # (IF tok = "" THEN <<>> ELSE <<tok>>) THEN { ToString(<<"auth", q.what, q.auth, tok>>) } ELSE {})
     \cup (IF ~ ViaOk(x, q) THEN { ToString(<<"proxy", q.what, q.reg, q.via, Via(x, q.reg)>>) } ELSE {})

Count(x, what) == Cardinality({ i \in DOMAIN x.did.seen : x.did.seen[i].what = what })
Tagged(x) == CASE Is(x, "default-tag", "beta") -> "2.0.0" [] Is(x, "default-tag", "old") -> "0.9.0" [] Is(x, "default-tag", "true") -> "1.5.0" [] OTHER -> "1.0.0"

If(c, s) == IF c THEN { ToString(s) } ELSE {}

\* A project nothing happened to
Untouched(x, p) == p.layout = "none" /\ p.lock = (IF x.stale THEN "stale" ELSE "none")

Apply(x) ==
  LET d == x.did
      p == IF Root(x) = "p1" THEN d.p1 ELSE d.p2
      other == IF Root(x) = "p1" THEN d.p2 ELSE d.p1
      installs == ~ On(x, "lockfile-only")
  IN If(~ Untouched(x, other), <<"other project", other>>)
     \cup IF ~ On(x, "apply") THEN If(d.outcome # "ok", <<"skipped", d.outcome>>) \cup If(~ Untouched(x, p), <<"skipped", p>>) \cup If(d.seen # <<>>, <<"skipped", "asks">>)
     ELSE IF On(x, "locked") /\ x.stale THEN If(d.outcome # "error", <<"locked", d.outcome>>) \cup If(~ Untouched(x, p), <<"locked", p>>)
     ELSE If(d.outcome # "ok", <<"outcome", d.outcome>>)
          \cup If(p.layout # (IF ~ installs THEN "none" ELSE IF On(x, "hoisted") THEN "hoisted" ELSE "isolated"), <<"layout", p.layout>>)
          \cup If(p.lock # (IF On(x, "lockfile") THEN "new" ELSE IF x.stale THEN "stale" ELSE "none"), <<"lockfile", p.lock>>)
          \cup If(installs /\ p.version # Tagged(x), <<"default-tag", p.version, Tagged(x)>>)
          \cup If(installs /\ p.ran # On(x, "scripts"), <<"scripts", p.ran>>)
          \cup If(installs /\ On(x, "prefer-copy") /\ p.links # 1, <<"prefer-copy", p.links>>)
          \cup If(installs /\ x.links /\ ~ On(x, "prefer-copy") /\ p.links = 1, <<"prefer-copy", p.links>>)
          \cup If(\E w \in {"a", "@s/b", "@t/c"} : Count(x, w) = 0, <<"not asked", x.did.seen>>)

Says(x) == ~ On(x, "quiet") /\ Effective(x, "loglevel") \in {"info", "debug", "trace"}
Known(x, o) == \E s \in Range(<<x.cli>> \o Files(x) \o <<x.env>>) : Has(s, o)
Ping(x) ==
  LET d == x.did
      tries == IF x.down THEN (CASE Is(x, "retries", "0") -> 1 [] Is(x, "retries", "1") -> 2 [] OTHER -> 3) ELSE 1
      out == IF x.down THEN "error" ELSE "ok"
  IN If(d.outcome # out, <<"outcome", d.outcome, out>>)
     \cup If(Count(x, "ping") # tries, <<"retries", Count(x, "ping"), tries>>)
     \cup If(~ x.down /\ d.pong # Says(x), <<"log", d.pong>>)
     \cup If(~ x.down /\ Says(x) /\ Known(x, "emoji") /\ d.emoji # On(x, "emoji"), <<"emoji", d.emoji>>)
     \cup If(~ x.down /\ d.json # On(x, "json"), <<"json", d.json>>)
     \cup If(~ x.down /\ ~ Says(x) /\ ~ On(x, "json") /\ On(x, "quiet") /\ d.said, <<"not quiet", d.said>>)

View(x) ==
  LET d == x.did
  IN If(d.outcome # "ok", <<"outcome", d.outcome>>)
     \cup If(Count(x, "a") = 0, <<"not asked", x.did.seen>>)
     \cup If(d.version # Tagged(x), <<"default-tag", d.version, Tagged(x)>>)
     \cup If(d.json # On(x, "json"), <<"json", d.json>>)

Problems(x) ==
  UNION { Asked(x, x.did.seen[i]) : i \in DOMAIN x.did.seen }
  \cup If({ x.did.caches[i] : i \in DOMAIN x.did.caches } # { Effective(x, "cache") }, <<"cache", x.did.caches, Effective(x, "cache")>>)
  \cup (IF x.cmd = "apply" THEN Apply(x) ELSE If(~ Untouched(x, x.did.p1) \/ ~ Untouched(x, x.did.p2), <<"touched", x.cmd>>))
  \cup (CASE x.cmd = "ping" -> Ping(x) [] x.cmd = "view" -> View(x) [] OTHER -> {})

Init == l = 1 /\ bad = 0
Check ==
  /\ l <= Len(Trace)
  /\ LET ps == Problems(Trace[l])
     IN /\ bad' = IF ps = {} THEN bad ELSE bad + 1
        /\ IF ps = {} THEN TRUE ELSE PrintT("@@" \o ToJson([line |-> l, problems |-> ps]))
  /\ l' = l + 1
Next == Check
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
