-------------------------------- MODULE Spec --------------------------------
(***************************************************************************)
(* Package specifiers: what a string means and how a meaning is written.       *)
(*                                                                         *)
(* A meaning is one of                                                       *)
(*   [k |-> "npm", name, req]      req is <<>> or <<text>>                     *)
(*   [k |-> "alias", name, of]     of is any other meaning                     *)
(*   [k |-> "dir", path]                                                     *)
(*   [k |-> "hosted", host, owner, repo, sel, via]   via is "" or the URL asked for *)
(*   [k |-> "url", url, sel]                                                 *)
(*   [k |-> "ssh", ssh, sel]                                                 *)
(*   [k |-> "error"]                                                         *)
(*   [k |-> "unsure"]              not documented: anything but a crash           *)
(* and sel is <<>>, <<"rev", text>> or <<"semver", text>>.                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

At(s, i) == SubSeq(s, i, i)
From(s, i) == SubSeq(s, i, Len(s))
Upto(s, i) == SubSeq(s, 1, i)
CharsOf(s) == { At(s, i) : i \in 1..Len(s) }
Small == "abcdefghijklmnopqrstuvwxyz"
Big == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Digits == CharsOf("0123456789")
Letters == CharsOf(Small) \cup CharsOf(Big)
\* (Characters outside of ASCII are spelled by these: a letter, an ideograph, an emoji.)
Foreign == {"}", "{", "`"}
SafeChars == Letters \cup Digits \cup CharsOf("-_.!~*'()")
SemverChars == SafeChars \cup CharsOf(" <>=^|+")
Safe(s) == CharsOf(s) \subseteq SafeChars
LowerChar(c) == IF c \in CharsOf(Big) THEN At(Small, CHOOSE i \in 1..26 : At(Big, i) = c) ELSE c
RECURSIVE Lower(_)
Lower(s) == IF s = "" THEN "" ELSE LowerChar(At(s, 1)) \o Lower(From(s, 2))
Starts(s, w) == Len(s) >= Len(w) /\ Lower(Upto(s, Len(w))) = w
Ends(s, w) == Len(s) >= Len(w) /\ From(s, Len(s) - Len(w) + 1) = w
\* The first place where one of the characters is, or just past the end
Find(s, S) == LET P == { i \in 1..Len(s) : At(s, i) \in S } IN IF P = {} THEN Len(s) + 1 ELSE CHOOSE i \in P : \A j \in P : i <= j
Till(s, S) == Upto(s, Find(s, S) - 1)
RECURSIVE SplitAt(_, _)
SplitAt(s, c) == LET i == Find(s, {c}) IN IF i > Len(s) THEN <<s>> ELSE <<Upto(s, i - 1)>> \o SplitAt(From(s, i + 1), c)

Error == [k |-> "error"]
Unsure == [k |-> "unsure"]
No == [ok |-> FALSE]                       \* not this form
Yes(x, rest) == [ok |-> TRUE, x |-> x, rest |-> rest]

(***************************************************************************)
(* Parts                                                                   *)
(***************************************************************************)
Ranges == {"*", "1", "1.2", "1.2.3", "^1.2.3", "~1.2.3", ">=1.2.3", "1.x", "^1", ">=1.0.0 <2.0.0", "1.2.3-beta.1", "^1.0.0 || ^2.0.0", "1.0.0 - 2.0.0"}
NotRanges == {"zz", "a/b", "@", "#"}
\* What comes after a repository
Committish(r) ==
  IF r = "" THEN [sel |-> <<>>, rest |-> "", sure |-> TRUE]
  ELSE LET t == From(r, 2) IN
       IF Starts(t, "semver:") THEN LET v == From(t, 8) IN [sel |-> IF v \in Ranges THEN <<"semver", v>> ELSE <<"bad">>, rest |-> "", sure |-> v \in Ranges \cup NotRanges \cup {""}]
       ELSE IF Safe(t) THEN [sel |-> <<"rev", t>>, rest |-> "", sure |-> t # ""]
       ELSE [sel |-> <<>>, rest |-> r, sure |-> TRUE]
\* (Something that can't be is wrong whatever else it might have been.)
WithSel(x, r) == LET c == Committish(r) IN
  IF ~ c.sure THEN Yes(Unsure, "") ELSE IF c.sel = <<"bad">> THEN Yes(Error, "") ELSE Yes([x EXCEPT !.sel = c.sel], c.rest)

Sep == {"/", "\\"}
Alphabetic == Letters \cup {"}", "{"}
Dir(s) ==
  \* (could as well be the alias of a directory)
  IF Starts(s, ".") /\ "@" \in CharsOf(s) THEN Yes(Unsure, "")
  ELSE IF Starts(s, ".") THEN Yes([k |-> "dir", path |-> s], "")
  ELSE IF s # "" /\ At(s, 1) \in Sep THEN Yes([k |-> "dir", path |-> s], "")
  ELSE IF Len(s) >= 3 /\ At(s, 1) \in Alphabetic /\ At(s, 2) = ":" /\ At(s, 3) \in Sep THEN Yes([k |-> "dir", path |-> s], "")
  ELSE No
Path(s) == IF Starts(s, "file:") THEN Dir(From(s, 6)) ELSE Dir(s)

Hosts == {"github", "gist", "gitlab", "bitbucket"}
Shorthand(s) ==
  LET h == { h \in Hosts : Starts(s, h \o ":") }
      host == IF h = {} THEN "github" ELSE CHOOSE x \in h : TRUE
      t == IF h = {} THEN s ELSE From(s, Len(host) + 2)
      owner == Till(t, {"/"})
      u == From(t, Len(owner) + 2)
      repo == Till(u, {"#"})
  IN IF owner = "" \/ ~ Safe(owner) \/ Find(t, {"/"}) > Len(t) THEN No
     ELSE IF repo = "" THEN Yes(Unsure, "")
     ELSE WithSel([k |-> "hosted", host |-> host, owner |-> owner, repo |-> repo, sel |-> <<>>, via |-> ""], From(u, Len(repo) + 1))

Domains == [d \in {"github.com", "gist.github.com", "gitlab.com", "bitbucket.org"} |->
            CASE d = "github.com" -> "github" [] d = "gist.github.com" -> "gist" [] d = "gitlab.com" -> "gitlab" [] OTHER -> "bitbucket"]
NoGit(r) == IF Ends(r, ".git") THEN Upto(r, Len(r) - 4) ELSE r
UrlChars == CharsOf(Small) \cup Digits \cup CharsOf("-_./~")
\* URLs of the simplest form: "yes", "no" (not one), or "unsure"
UrlOf(s) ==
  LET i == Find(s, {":"})
      scheme == Upto(s, i - 1)
      r == From(s, i + 3)
      auth == Till(r, {"/"})
      path == From(r, Len(auth) + 1)
      at == Find(auth, {"@"})
      user == IF at > Len(auth) THEN "" ELSE Upto(auth, at - 1)
      hp == IF at > Len(auth) THEN auth ELSE From(auth, at + 1)
      colon == Find(hp, {":"})
      host == Upto(hp, colon - 1)
      port == From(hp, colon + 1)
      plain(x) == CharsOf(x) \subseteq UrlChars
      dots == {".", ".."} \cap { SplitAt(path, "/")[j] : j \in DOMAIN SplitAt(path, "/") } # {}
  IN IF scheme \notin {"git", "https", "ssh"} \/ ~ Starts(From(s, i), "://") \/ ~ plain(user) \/ ~ plain(host) \/ ~ plain(path) \/ dots
        \/ host = "" \/ ~ CharsOf(host) \subseteq CharsOf(Small) \cup {"."} \/ CharsOf(host) \subseteq {"."} \/ Ends(host, ".") \/ (at <= Len(auth) /\ user = "") THEN [is |-> "unsure"]
     ELSE IF colon <= Len(hp) /\ ~ CharsOf(port) \subseteq Digits THEN [is |-> IF plain(port) THEN "no" ELSE "unsure"]
     ELSE IF colon <= Len(hp) /\ port \notin {"22", "8080"} THEN [is |-> "unsure"]
     ELSE [is |-> "yes", host |-> host, path |-> IF path = "" /\ scheme = "https" THEN "/" ELSE path,
           text |-> s \o (IF path = "" /\ scheme = "https" THEN "/" ELSE "")]
\* (user@host:path isn't a URL, but that's how ssh is told)
Scp(s) ==
  LET at == Find(s, {"@"})
      user == IF at > Len(s) THEN "" ELSE Upto(s, at - 1)
      r == IF at > Len(s) THEN s ELSE From(s, at + 1)
      host == Till(r, {":", "#"})
      t == From(r, Len(host) + 1)
      path == IF Starts(t, ":") THEN Till(From(t, 2), {"#"}) ELSE ""
      u == IF path = "" THEN t ELSE From(t, Len(path) + 2)
      raw == (IF user = "" THEN "" ELSE user \o "@") \o host \o (IF path = "" THEN "" ELSE ":" \o path)
      seg == SplitAt(path, "/")
  IN IF (at <= Len(s) /\ user = "") \/ ~ CharsOf(user) \subseteq UrlChars \/ ~ CharsOf(host) \subseteq CharsOf(Small) \cup {"."} \/ host = "" \/ path = "" \/ ~ CharsOf(path) \subseteq UrlChars THEN Yes(Unsure, "")
     ELSE IF host \in DOMAIN Domains /\ user # "" /\ Len(seg) = 2
     THEN (IF "" \in {seg[1], NoGit(seg[2])} \/ Ends(NoGit(seg[2]), ".git") THEN Yes(Unsure, "")
           ELSE WithSel([k |-> "hosted", host |-> Domains[host], owner |-> seg[1], repo |-> NoGit(seg[2]), sel |-> <<>>, via |-> raw], u))
     ELSE WithSel([k |-> "ssh", ssh |-> raw, sel |-> <<>>], u)
GitUrl(s) ==
  LET plus == Starts(s, "git+")
      t == IF plus THEN From(s, 5) ELSE s
      text == Till(t, {"#"})
      u == UrlOf(text)
      seg == IF u.is = "yes" /\ u.path # "" THEN SplitAt(From(u.path, 2), "/") ELSE <<>>
      rest == From(t, Len(text) + 1)
  IN IF ~ plus /\ ~ Starts(s, "git://") /\ ~ Starts(s, "ssh://") THEN No
     ELSE IF u.is = "unsure" THEN Yes(Unsure, "")
     ELSE IF u.is = "no" THEN (IF Starts(t, "ssh://") THEN Scp(From(t, 7)) ELSE Yes(Unsure, ""))
     ELSE IF u.host \in DOMAIN Domains /\ Len(seg) = 2
     THEN (IF "" \in {seg[1], NoGit(seg[2])} THEN Yes(Unsure, "")
           ELSE WithSel([k |-> "hosted", host |-> Domains[u.host], owner |-> seg[1], repo |-> NoGit(seg[2]), sel |-> <<>>, via |-> u.text], rest))
     ELSE WithSel([k |-> "url", url |-> u.text, sel |-> <<>>], rest)
Git(s) == LET h == Shorthand(s) IN IF h.ok THEN h ELSE GitUrl(s)

\* (What the reader of ranges makes of space is its own affair, and no tag starts with a dot.)
Req(t) == IF Starts(t, ".") \/ (t \notin Ranges /\ {" ", "\t"} \cap CharsOf(t) # {}) THEN <<"unsure">>
          ELSE IF CharsOf(t) \subseteq SafeChars \/ t \in Ranges THEN <<t>>
          ELSE IF CharsOf(t) \subseteq SemverChars THEN <<"unsure">> ELSE <<"bad">>
Npm(s) ==
  LET scoped == s # "" /\ At(s, 1) = "@" /\ LET c == Till(From(s, 2), {"/"}) IN c # "" /\ Safe(c) /\ Len(c) + 1 < Len(s)
      scope == IF scoped THEN Upto(s, Find(s, {"/"})) ELSE ""
      r == From(s, Len(scope) + 1)
      n == Till(r, {"@", "/"})
      t == From(r, Len(n) + 1)
  IN IF n = "" \/ ~ Safe(n) THEN No
     ELSE IF At(n, 1) = "." THEN Yes(Unsure, "") \* not a name there could be
     ELSE IF t = "" THEN Yes([k |-> "npm", name |-> scope \o n, req |-> <<>>], "")
     ELSE IF At(t, 1) = "/" THEN Yes([k |-> "npm", name |-> scope \o n, req |-> <<>>], t)
     ELSE LET q == Req(From(t, 2)) IN
          IF q = <<"bad">> THEN Yes(Error, "") ELSE IF q = <<"unsure">> THEN Yes(Unsure, "")
          ELSE Yes([k |-> "npm", name |-> scope \o n, req |-> q], "")
PrefixedNpm(s) == IF Starts(s, "npm:") THEN Npm(From(s, 5)) ELSE No

Alias(s) ==
  LET s1 == IF s # "" /\ At(s, 1) = "@" THEN From(s, 2) ELSE s
      c == Till(s1, {"/"})
      scoped == c # "" /\ Safe(c) /\ Len(c) < Len(s1)
      scope == IF scoped THEN Upto(s, Find(s, {"/"})) ELSE ""
      r == From(s, Len(scope) + 1)
      n == Till(r, {"@", "/"})
      t == From(r, Len(n) + 1)
      v == From(t, 2)
      p == Path(v)
      g == Git(v)
      m == PrefixedNpm(v)
      of(x) == IF x.x.k \in {"error", "unsure"} THEN Yes(x.x, "")
               ELSE IF (scoped /\ At(s, 1) # "@") \/ At(n, 1) = "." THEN Yes(Unsure, "") \* not names there could be
               ELSE Yes([k |-> "alias", name |-> scope \o n, of |-> x.x], x.rest)
  IN IF n = "" \/ ~ Safe(n) \/ t = "" \/ At(t, 1) # "@" THEN No
     ELSE IF p.ok THEN of(p) ELSE IF g.ok THEN of(g) ELSE IF m.ok THEN of(m) ELSE No

Whole(x) == IF x.x.k \in {"error", "unsure"} THEN x.x ELSE IF x.rest = "" THEN x.x ELSE Error
Parse(s) ==
  LET a == Alias(s)  p == Path(s)  g == Git(s)  m == PrefixedNpm(s)  n == Npm(s) IN
  IF a.ok THEN Whole(a) ELSE IF p.ok THEN Whole(p) ELSE IF g.ok THEN Whole(g) ELSE IF m.ok THEN Whole(m) ELSE IF n.ok THEN Whole(n) ELSE Error

(***************************************************************************)
(* Writing                                                                 *)
(***************************************************************************)
HasScheme(t) == \E i \in 1..Len(t) : Starts(From(t, i), "://")
SelStr(sel) == IF sel = <<>> THEN "" ELSE "#" \o (IF sel[1] = "semver" THEN "semver:" ELSE "") \o sel[2]
RECURSIVE Write(_)
Write(x) ==
  CASE x.k = "npm" -> x.name \o (IF x.req = <<>> THEN "" ELSE "@" \o x.req[1])
    [] x.k = "alias" -> x.name \o "@" \o (IF x.of.k = "npm" THEN "npm:" ELSE "") \o Write(x.of)
    [] x.k = "dir" -> x.path
    [] x.k = "hosted" -> (IF x.via = "" THEN x.host \o ":" \o x.owner \o "/" \o x.repo
                          ELSE IF Starts(x.via, "git://") THEN x.via ELSE "git+" \o (IF HasScheme(x.via) THEN "" ELSE "ssh://") \o x.via) \o SelStr(x.sel)
    [] x.k = "url" -> (IF Starts(x.url, "git://") THEN "" ELSE "git+") \o x.url \o SelStr(x.sel)
    [] x.k = "ssh" -> "git+ssh://" \o x.ssh \o SelStr(x.sel)

\* Where a hosted repository is
Repository(x) ==
  [https |-> CASE x.host = "gist" -> "https://gist.github.com/" \o x.repo \o ".git"
               [] x.host = "bitbucket" -> "https://bitbucket.org/" \o x.owner \o "/" \o x.repo \o ".git"
               [] OTHER -> "https://" \o x.host \o ".com/" \o x.owner \o "/" \o x.repo \o ".git",
   tarball |-> IF x.sel = <<>> \/ x.sel[1] # "rev" THEN ""
               ELSE CASE x.host = "github" -> "https://codeload.github.com/" \o x.owner \o "/" \o x.repo \o "/tar.gz/" \o x.sel[2]
                      [] x.host = "gist" -> "https://codeload.github.com/gist/" \o x.repo \o "/tar.gz/" \o x.sel[2]
                      [] x.host = "gitlab" -> "https://gitlab.com/" \o x.owner \o "/" \o x.repo \o "/repository/archive.tar.gz?ref=" \o x.sel[2]
                      [] OTHER -> "https://bitbucket.org/" \o x.owner \o "/" \o x.repo \o "/get/" \o x.sel[2] \o ".tar.gz"]
=============================================================================
