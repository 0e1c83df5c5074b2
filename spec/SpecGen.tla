------------------------------ MODULE SpecGen ------------------------------
(***************************************************************************)
(* Package specifiers: of every documented form, and made of any pieces.      *)
(***************************************************************************)
EXTENDS Spec, Json, IOUtils

Rnd(S) == RandomElement(S)
Chance(n) == RandomElement(1..100) <= n
VARIABLES scn, phase
vars == <<scn, phase>>

Pieces == <<"a", "b-c", "B1", "0", "@", "@", "/", "/", ":", ".", "#", "1.2.3", "^1.2.3", "~1", "*", " ", "npm:", "file:", "github:", "gist:", "gitlab:", "bitbucket:", "NPM:", "GitHub:",
            "git+", "ssh://", "git://", "https://", "github.com", "x.org", ".git", "semver:", "\\", "}", "{", "`", "%", "..", "|", "=", "-", "_", "x", "~", "=*", "C:", "git@", "+", "?", "\n", "\t", "\"", "(", "22", "v", "&">>
RECURSIVE Some(_)
Some(n) == IF n = 0 THEN "" ELSE Pieces[Rnd(DOMAIN Pieces)] \o Some(n - 1)

Word(i_) == Rnd({"a", "foo", "lo-dash", "x_y", "A1", "b.js", "z~", "semver", "npm", "git", "1", "latest", "github", "t.gz", "a.git.b", "a.github.io", "file", "ssh"})
Name(i_) == IF Chance(60) THEN Rnd({"a", "foo", "lo-dash", "x_y", "A1", "b.js", "npm", "git", "1", "latest", "github", "a.git.b"}) ELSE "@" \o Rnd({"s", "my-scope", "a.b", "npm"}) \o "/" \o Rnd({"a", "foo", "lo-dash", "b.js", "npm"})
Ver(i_) == <<Rnd(0..2), Rnd(0..2), Rnd(0..2), Rnd({0, 0, 0, 1, 3})>>
Kinds == {"none", "exact", "caret", "tilde", "gte", "gt", "lte", "lt", "hyphen", "x", "xx", "or", "star", "maj", "majmin", "caretmaj", "caretmin", "tildemaj", "tildemin", "and", "hyphenmin", "tag"}
\* A requirement; the versions of ranges with two ends are in their order
Want(K) == LET v == TLCEval(Ver(1)) w == TLCEval(Ver(2)) IN
  [n |-> "", p |-> "", t |-> Rnd(K), v |-> v, w |-> <<v[1] + 1, w[2], w[3], w[4]>>, g |-> IF Chance(40) THEN "other" ELSE Rnd({"latest", "next", "beta-1", "dist_2", "a.b"})]
NoWant == [n |-> "", p |-> "", t |-> "none", v |-> <<0,0,0,0>>, w |-> <<0,0,0,0>>, g |-> ""]
Sel(i_) == LET c == TLCEval(Rnd(1..4)) IN IF c = 1 THEN [how |-> "none", rev |-> "", d |-> NoWant]
           ELSE IF c = 2 THEN [how |-> "rev", rev |-> Rnd({"main", "deadbeef0123", "v1.2.3", "1.2.3", "my-branch", "a_b", "semver", "*"}), d |-> NoWant]
           ELSE [how |-> "semver", rev |-> "", d |-> TLCEval(Want(Kinds \ {"none", "tag"}))]
NoSel == [how |-> "none", rev |-> "", d |-> NoWant]
Segs == {"a", "b", "foo.git", "x-y", "~u", "a.github.io", "1"}
RECURSIVE Segments(_)
Segments(n) == IF n = 0 THEN "" ELSE "/" \o Rnd(Segs) \o Segments(n - 1)
Repo(i_) == Rnd({"r", "my-repo", "x.js", "a.github.io", "a.git.b", "git", "r_1"})
\* A meaning without its requirements, the way it's spelled before them, and the requirements
Base(i_) ==
  LET c == TLCEval(Rnd({"npm", "npm", "npm", "dir", "hosted", "hosted", "via", "via", "url", "url", "ssh"}))
      n == TLCEval(Name(1)) r == TLCEval(Repo(1)) o == TLCEval(Rnd({"o", "orogene", "a-b", "A1", "x.y"})) h == TLCEval(Rnd(Hosts))
      dom == CHOOSE d \in DOMAIN Domains : Domains[d] = h
      dotgit == TLCEval(Rnd({"", ".git"}))
      pre == TLCEval(Rnd({"https://", "git://", "ssh://git@", "ssh://", "git@", "git@"}))
      port == TLCEval(Rnd({"", "", "", ":22"}))
      low == TLCEval(Rnd({"o", "orogene", "a-b", "x.y"}))
      via == pre \o dom \o (IF pre = "git@" THEN ":" ELSE "/") \o low \o "/" \o r \o dotgit
      plus == TLCEval(IF Starts(pre, "git://") \/ pre \in {"git@", "ssh://", "ssh://git@"} THEN Rnd({"git+", ""}) ELSE "git+")
      path == TLCEval(Rnd({"./", "../", ".\\", "/", "C:\\", "d:/", "./../", "\\\\?\\", "\\\\", "./"})) \o TLCEval(Rnd({"", "a", "a/b", "a b", "@x/y", "a@1.2.3", "a#b", "a:b", "npm:a", "}x", "%20", "a\\b"}))
      u == TLCEval(Rnd({"https://", "git://", "ssh://", "ssh://git@"})) \o TLCEval(Rnd({"x.org", "codeberg.org", "git.example.com", "localhost", "github.com", "gitlab.com", "bitbucket.org"})) \o TLCEval(port)
      segs == TLCEval(Segments(Rnd({0, 1, 1, 2, 2, 3})))
      hostu == UrlOf(u)
      many == LET q == SplitAt(segs, "/") IN IF UrlOf(u \o segs).is = "yes" /\ UrlOf(u \o segs).host \in DOMAIN Domains /\ Len(q) = 3 THEN segs \o "/z" ELSE segs
      up == TLCEval(IF Starts(u, "git://") \/ Starts(u, "ssh://") THEN Rnd({"git+", ""}) ELSE "git+")
      ssh == TLCEval(Rnd({"git@x.org:a/b", "x.org:a", "git@github.com:a/b/c", "me@codeberg.org:foo/bar.git", "git@bitbucket.org:a", "git@x.org:a/b/c.git", "git@localhost:r"}))
  IN CASE c = "npm" -> [m |-> [k |-> "npm", name |-> n, req |-> <<>>], top |-> TLCEval(Rnd({"", "", "npm:", "NPM:"})) \o n, in |-> TLCEval(Rnd({"npm:", "npm:", "Npm:"})) \o n, d |-> TLCEval(Want(Kinds)), sel |-> NoSel]
       [] c = "dir" -> LET f == TLCEval(Rnd({"", "", "file:", "FILE:"})) IN [m |-> [k |-> "dir", path |-> path], top |-> f \o path, in |-> f \o path, d |-> NoWant, sel |-> NoSel]
       [] c = "hosted" -> LET f == TLCEval(IF h = "github" THEN Rnd({"github:", "", "GitHub:"}) ELSE h \o ":") \o o \o "/" \o r IN
            [m |-> [k |-> "hosted", host |-> h, owner |-> o, repo |-> r, sel |-> <<>>, via |-> ""], top |-> f, in |-> f, d |-> NoWant, sel |-> TLCEval(Sel(1))]
       [] c = "via" -> LET f == (IF pre = "git@" THEN plus \o "ssh://" ELSE plus) \o via IN
            [m |-> [k |-> "hosted", host |-> h, owner |-> low, repo |-> r, sel |-> <<>>, via |-> via], top |-> f, in |-> f, d |-> NoWant, sel |-> TLCEval(Sel(1))]
       [] c = "url" -> [m |-> [k |-> "url", url |-> UrlOf(u \o many).text, sel |-> <<>>], top |-> up \o u \o many, in |-> up \o u \o many, d |-> NoWant, sel |-> TLCEval(Sel(1))]
       [] OTHER -> LET f == TLCEval(Rnd({"git+", ""})) \o "ssh://" \o ssh IN [m |-> [k |-> "ssh", ssh |-> ssh, sel |-> <<>>], top |-> f, in |-> f, d |-> NoWant, sel |-> TLCEval(Sel(1))]

Doc(i_) == LET b == TLCEval(Base(1)) a == TLCEval(IF Chance(35) THEN Name(2) ELSE "") IN
  [doc |-> IF a = "" THEN b.m ELSE [k |-> "alias", name |-> a, of |-> b.m], text |-> IF a = "" THEN b.top ELSE a \o "@" \o b.in, d |-> b.d, sel |-> b.sel]
Text(i_) == [doc |-> Error, text |-> TLCEval(Some(Rnd(0..6))), d |-> NoWant, sel |-> NoSel]
Spoilt(i_) == LET t == TLCEval(TLCEval(Doc(1)).text) i == TLCEval(Rnd(0..Len(t))) p == TLCEval(Pieces[Rnd(DOMAIN Pieces)])
                  cut == TLCEval(Rnd({0, 0, 1}))
              IN [doc |-> Error, text |-> Upto(t, i) \o p \o (IF i + 1 + cut > Len(t) THEN "" ELSE From(t, i + 1 + cut)), d |-> NoWant, sel |-> NoSel]

One(i_) == LET c == TLCEval(Rnd(1..5)) IN IF c <= 3 THEN Doc(i_) ELSE IF c = 4 THEN Text(i_) ELSE Spoilt(i_)
Scenario(i_) == [specs |-> TLCEval([j \in 1..25 |-> One(i_ + j)])]
Init == scn = <<>> /\ phase = 0
Next == \/ phase = 0 /\ phase' = 1 /\ \E s \in { Scenario(phase) } : scn' = s
        \/ phase = 1 /\ phase' = 2 /\ UNCHANGED scn /\ PrintT("@@" \o ToJson(scn))
=============================================================================
