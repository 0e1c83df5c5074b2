------------------------------ MODULE ViewTrace ------------------------------
(***************************************************************************)
(* Checks what `oro view` said of packages in registries, directories and    *)
(* git repositories (see ViewGen).                                         *)
(***************************************************************************)
EXTENDS View, Json, IOUtils, SequencesExt

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad

VStr(v) == IF v = NoVersion THEN "0.0.0"
           ELSE ToString(v[1]) \o "." \o ToString(v[2]) \o "." \o ToString(v[3]) \o (IF v[4] = 0 THEN "" ELSE "-beta." \o ToString(v[4]))

\* ---- as JSON: everything published is there, and nothing that isn't but what stands for nothing
Void == {"{}", "[]", "\"\"", "null"}
Quoted(s) == "\"" \o s \o "\""
\* fields of which only the meaning is kept
Kept(f) == f \notin {"deprecated"}
JsonWrong(e, g) ==
       { <<"lost", f>> : f \in { x \in DOMAIN e.pub.f : Kept(x) /\ (x \notin DOMAIN g.f \/ g.f[x] # e.pub.f[x]) } }
  \cup { <<"made up", f>> : f \in { x \in DOMAIN g.f : Kept(x) /\ x \notin DOMAIN e.pub.f /\ g.f[x] \notin Void
                                      /\ ~ (x = "dist" /\ ~ e.registry) /\ ~ (x = "version" /\ g.f[x] = Quoted("0.0.0") /\ e.m.v = NoVersion) } }
  \cup (IF g.ver # VStr(e.m.v) THEN { <<"version", g.ver>> } ELSE {})
  \cup (IF g.name # e.name THEN { <<"name", g.name>> } ELSE {})
  \cup (LET d == IF "deprecated" \in DOMAIN g.f THEN g.f["deprecated"] ELSE "false"
            w == IF ~ e.registry \/ e.m.depr \in {"", "false"} THEN {"false"} ELSE IF e.m.depr = "true" THEN {"true"} ELSE { Quoted(e.m.depr) }
        IN IF d \in w THEN {} ELSE { <<"deprecated", d>> })

\* ---- in words
Person(x) == CASE x = "str" -> "- Ann <a@x.org>" [] x = "obj" -> "- Bob <b@x.org> (https://b.org)" [] x = "name" -> "- Cy" [] OTHER -> "- Di (https://d.org)"
Bins(e) == CASE e.m.bin = "" -> { <<>> }
             [] e.m.bin = "str" -> { <<e.name>> } \cup (IF e.name = "@s/p" THEN { <<"p">> } ELSE {})
             [] e.m.bin = "hash" -> { <<"one", "two">> }
             [] OTHER -> { <<"four", "three.js">>, <<"four", "three">> }
Deps(m) == m.deps + (IF m.long THEN 1 ELSE 0)
Size(n) == CASE n = 0 -> {""} [] n = 1 -> {"1 B"} [] n = 12345 -> {"12.35 KB", "12.35 kB", "12.34 KB", "12.34 kB"} [] OTHER -> {"99 MB"}
Join(q) == IF q = <<>> THEN "" ELSE FoldLeft(LAMBDA a, b : a \o ", " \o b, q[1], Tail(q))
TextWrong(e, g) ==
  LET t == g.text m == e.m
      want(what, got, exp) == IF got = exp THEN {} ELSE { <<what, got>> }
  IN want("head", t.head, << e.name \o "@" \o VStr(m.v), License(m), "deps: " \o ToString(Deps(m)), "releases: " \o ToString(e.releases) >>)
     \cup want("description", t.desc, m.desc) \cup want("homepage", t.home, m.home) \cup want("keywords", t.kw, Join(m.kw))
     \cup want("deprecated", t.depr, IF ~ e.registry \/ m.depr = "false" THEN "" ELSE m.depr)
     \cup (IF t.bins \in Bins(e) THEN {} ELSE { <<"bins", t.bins>> })
     \cup want("dependencies", t.deplist, e.pub.deplist)
     \cup want("more", t.more, IF Deps(m) > 25 THEN "(...and " \o ToString(Deps(m) - 25) \o " more)" ELSE "")
     \cup (IF ~ e.registry THEN {}
           ELSE want("tarball", t.tarball, e.url) \cup want("shasum", t.shasum, "0123456789abcdef0123456789abcdef01234567")
                \cup want("people", t.people, [j \in DOMAIN m.people |-> Person(m.people[j])])
                \cup (IF (t.sri # "") = m.integrity THEN {} ELSE { <<"integrity", t.sri>> })
                \cup (IF t.size \in Size(m.size) THEN {} ELSE { <<"size", t.size>> }))
     \cup want("else", t.other, <<>>)

Wrong(e, a) == IF a.json THEN JsonWrong(e, a.got) ELSE TextWrong(e, a.got)
\* es: what it may turn out to be (nothing: an error is due)
One(es, a, fails, x_) ==
  IF a.got.outcome = "error" THEN IF es = {} \/ fails THEN {} ELSE { <<IF x_ THEN "both bundles" ELSE "not found", a.text>> }
  ELSE IF a.got.outcome # "ok" THEN { <<a.got.outcome, a.text>> }
  ELSE IF es = {} THEN { <<"found", a.text>> }
  ELSE IF \E e \in es : Wrong(e, a) = {} THEN {}
  ELSE LET e == CHOOSE x \in es : TRUE IN { <<a.text, ToString(w)>> : w \in Wrong(e, a) }

\* ---- where it's from
OfVersion(x, v) == LET e == CHOOSE y \in Range(x.uni.vers) : y.v = v IN
  [m |-> e.m, pub |-> e.pub, name |-> e.m.name, releases |-> Len(x.uni.vers), registry |-> TRUE, url |-> e.url]
FromRegistry(x, a) == LET v == Select(x.uni, [a.d EXCEPT !.n = "~"], "latest") IN IF v = NoVersion THEN {} ELSE { OfVersion(x, v) }

OfCommit(x, c) == [m |-> c.m, pub |-> c.pub, name |-> c.m.name, releases |-> 1, registry |-> FALSE, url |-> ""]
FromGit(x, a) ==
  IF ~ Reachable(a) THEN {} ELSE { OfCommit(x, x.repo.commits[i]) : i \in { j \in Named(x.repo, a.sel) : x.repo.commits[j].broken = "" } }

OfDir(d) == [m |-> d.m, pub |-> d.pub, name |-> IF d.m.name = "" THEN d.base ELSE d.m.name, releases |-> 1, registry |-> FALSE, url |-> ""]
\* (two tags may stand for one version)
MayFail(x, a) == x.k = "git" /\ \E j \in Named(x.repo, a.sel) : x.repo.commits[j].broken # ""
FromDir(x, a) == { OfDir(d) : d \in { y \in Range(x.dirs) : y.at = a.at /\ y.broken = "" } }

\* What's bundled is listed under both of its names: a known finding, which for a registry
\* concerns all versions, as they're read together.
Both(x, es) == LET odd(m) == "bundle both" \in Range(m.shapes) IN
  IF x.k = "registry" THEN \E v \in Range(x.uni.vers) : odd(v.m) ELSE \E e \in es : odd(e.m)

From(x, a) == CASE x.k = "registry" -> FromRegistry(x, a) [] x.k = "git" -> FromGit(x, a) [] OTHER -> FromDir(x, a)
Problems(x) == UNION { { <<ToString(j), ToString(p)>> : p \in One(From(x, x.asks[j]), x.asks[j], MayFail(x, x.asks[j]), Both(x, From(x, x.asks[j]))) } : j \in DOMAIN x.asks }

Init == l = 1 /\ bad = 0
Check ==
  /\ l <= Len(Trace)
  /\ LET ps == Problems(Trace[l])
     IN /\ bad' = IF ps = {} THEN bad ELSE bad + 1
        /\ IF ps = {} THEN TRUE ELSE PrintT("@@" \o ToJson([line |-> l, problems |-> ps]))
  /\ l' = l + 1
Next == Check
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
