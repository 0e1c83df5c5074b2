------------------------------- MODULE ViewGen -------------------------------
(***************************************************************************)
(* Packages in registries, directories and git repositories, and specifiers  *)
(* of them to look at.                                                     *)
(***************************************************************************)
EXTENDS View, Json, IOUtils, TLC

Rnd(S) == RandomElement(S)
Chance(n) == RandomElement(1..100) <= n
VARIABLES scn, phase
vars == <<scn, phase>>

Pool == << <<0,1,0,0>>, <<0,1,1,0>>, <<1,0,0,0>>, <<1,0,1,0>>, <<1,1,0,0>>, <<1,2,0,1>>, <<1,2,0,0>>, <<2,0,0,1>>, <<2,0,0,0>>, <<10,0,0,0>> >>
Kinds == {"exact", "exact", "caret", "tilde", "gte", "gt", "lt", "lte", "x", "xx", "or", "star", "maj", "majmin", "caretmaj", "tildemin", "hyphen", "and"}
Words == {"a", "tool", "b-c", "x_y", "1"}
Shapes == {"author str", "author obj", "author name", "repo str", "repo obj", "bugs str", "bugs obj", "man str", "man list", "exports str", "exports obj", "exports list",
           "imports", "funding", "type", "scripts", "dev", "peer", "opt", "bundle", "bundle all", "engines", "os", "config", "files", "private", "odd", "main",
           "contributors", "npmUser", "directories", "publishConfig", "workspaces", "licenses", "gitHead", "shrinkwrap"}

Meta(nm, v, i_) ==
  [name |-> nm, v |-> v, lic |-> Rnd({"", "MIT", "Parity-7.0", "SEE LICENSE IN x"}), desc |-> Rnd({"", "does things", "it's | odd: \"quoted\""}),
   home |-> Rnd({"", "https://x.org/a"}), kw |-> Rnd({ <<>>, <<"one">>, <<"two", "three four">> }),
   bin |-> Rnd({"", "", "str", "hash", "list"}), depr |-> Rnd({"", "", "", "true", "false", "use b"}),
   people |-> [j \in 1..Rnd({0, 0, 1, 2}) |-> Rnd({"str", "obj", "name", "url"})],
   deps |-> Rnd({0, 0, 1, 3, 7, 25, 26, 40}), long |-> Chance(10), size |-> Rnd({0, 1, 12345, 99000000}), integrity |-> Chance(80),
   shapes |-> LET n == Rnd({0, 2, 4}) IN { Rnd(Shapes) : j \in 1..n } \cup (IF Chance(2) THEN {"bundle both"} ELSE {})]

NoD == [n |-> "", p |-> "", k |-> "prod", t |-> "none", v |-> <<0,0,0,0>>, w |-> <<0,0,0,0>>, g |-> ""]
WantOf(p, S, K) ==
  LET a == TLCEval(IF S # {} /\ Chance(70) THEN Rnd(S) ELSE Pool[Rnd(DOMAIN Pool)])
      b == TLCEval(Pool[Rnd(DOMAIN Pool)])
      k0 == TLCEval(Rnd(K))
      k == IF k0 = "and" /\ a = b THEN "caret" ELSE k0   \* (what's in an empty range is a matter for C01)
      sw == k \in {"hyphen", "and"} /\ VLt(b, a)
  IN [n |-> p, p |-> p, k |-> "prod", t |-> k, v |-> IF sw THEN b ELSE a, w |-> IF sw THEN a ELSE b, g |-> IF k = "tag" THEN Rnd({"latest", "next"}) ELSE ""]
Want(p, S, i_) == WantOf(p, S, Kinds \cup {"tag", "none"})

NoSrc == [tarball |-> "gone", https |-> FALSE, ssh |-> FALSE, there |-> TRUE]
NoSel == [how |-> "none", rev |-> "", c |-> 0, len |-> 0, d |-> NoD]
Ask0 == [k |-> "", alias |-> "", text |-> "", d |-> NoD, via |-> "", host |-> "", sel |-> NoSel, src |-> NoSrc, at |-> "", json |-> TRUE]
Nick(i_) == IF Chance(20) THEN Rnd({"x", "@s/x"}) ELSE ""

\* ---- a registry
RegName(i_) == Rnd({"p", "@s/p"})
RECURSIVE Some(_, _)
Some(S, n) == IF n = 0 \/ S = {} THEN {} ELSE LET x == TLCEval(Rnd(S)) IN {x} \cup Some(S \ {x}, n - 1)
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
InRegistry(i_) ==
  LET p  == TLCEval(RegName(1))
      vs == TLCEval(Some(Range(Pool), Rnd({1, 2, 3, 5})))
      sq == SeqOf(vs)
      tag(t) == IF Chance(IF t = "latest" THEN 85 ELSE 40) THEN << [p |-> p, t |-> t, v |-> Rnd(vs)] >> ELSE <<>>
      uni == TLCEval([vers |-> TLCEval([j \in DOMAIN sq |-> [p |-> p, v |-> sq[j], m |-> Meta(p, sq[j], j)]]), tags |-> TLCEval(tag("latest")) \o TLCEval(tag("next"))])
  IN [k |-> "registry", uni |-> uni, p |-> p,
      asks |-> TLCEval([j \in 1..5 |-> [Ask0 EXCEPT !.k = "npm", !.alias = Nick(j), !.d = TLCEval(Want(p, vs, j)), !.json = Chance(40)]])]

\* ---- a git repository
Branches == {"main", "trunk", "dev", "my-branch", "v1"}
Revs == {"gone", "package.json", "lib", "-f", "--detach", "stable", "9.9.9"}
InGit(i_) ==
  LET n  == TLCEval(Rnd(1..5))
      bs == TLCEval(Some(Branches, Rnd({1, 2, 3})))
      hd == TLCEval(Rnd(bs))
      bq == SeqOf(bs)
      tv == TLCEval(Some(Range(Pool), Rnd({0, 1, 2, 4})))
      tq == SeqOf(tv)
      pre == TLCEval([j \in DOMAIN tq |-> Rnd({"", "", "v", "v", "rel/", "pkg/v"})])
      twice == TLCEval([j \in DOMAIN tq |-> Chance(15)])
      \* (the same version may be tagged twice)
      ts == TLCEval([j \in DOMAIN tq |-> [n |-> "", pre |-> pre[j], v |-> tq[j], c |-> Rnd(1..n)]])
            \o TLCEval(IF tq # <<>> /\ Chance(15) THEN << [n |-> "", pre |-> IF pre[1] = "v" THEN "" ELSE "v", v |-> tq[1], c |-> Rnd(1..n)] >> ELSE <<>>)
            \o TLCEval(IF Chance(40) THEN << [n |-> "stable", pre |-> "", v |-> NoVersion, c |-> Rnd(1..n)] >> ELSE <<>>)
      repo == TLCEval([commits |-> TLCEval([j \in 1..n |-> [m |-> [Meta(Rnd({"p", "p", "@s/p", "q"}), IF Chance(10) THEN NoVersion ELSE Rnd(Range(Pool)), j) EXCEPT !.desc = "commit " \o ToString(j)], broken |-> Rnd({"", "", "", "", "", "", "none", "bad"})]]),
                       head |-> hd, branches |-> TLCEval([j \in DOMAIN bq |-> [n |-> bq[j], c |-> Rnd(1..n)]]), tags |-> ts])
      sel(j_) == LET h == TLCEval(Rnd({"none", "rev", "rev", "sha", "semver", "semver"})) IN
        CASE h = "none" -> NoSel
          [] h = "rev" -> [NoSel EXCEPT !.how = "rev", !.rev = IF Chance(50) THEN Rnd(bs) ELSE IF ts # <<>> /\ Chance(60) THEN "" ELSE Rnd(Revs),
                                        !.c = IF ts = <<>> THEN 0 ELSE Rnd(DOMAIN ts)]
          [] h = "sha" -> [NoSel EXCEPT !.how = "sha", !.c = IF Chance(85) THEN Rnd(1..n) ELSE 99, !.len = Rnd({40, 40, 10, 7})]
          [] OTHER -> [NoSel EXCEPT !.how = "semver", !.d = TLCEval(WantOf("p", tv, Kinds))]
      ask(j_) == [Ask0 EXCEPT !.k = "git", !.alias = Nick(j_), !.sel = TLCEval(sel(j_)), !.json = Chance(60),
                              !.host = Rnd({"github", "github", "gitlab", "bitbucket", "gist"}),
                              !.via = Rnd({"short", "short", "short", "bare", "host https", "host ssh", "host scp", "file", "https", "ssh", "scp", "git"}),
                              !.src = [tarball |-> Rnd({"ok", "ok", "gone", "cut", "junk"}), https |-> Chance(60), ssh |-> Chance(60), there |-> Chance(90)]]
  IN [k |-> "git", repo |-> repo, asks |-> TLCEval([j \in 1..5 |-> ask(j)])]

\* ---- directories
InDir(i_) ==
  LET at == << "d", "pkgs/b-c", "pkgs/d.d", "../out/side", "a b" >>
      dirs == TLCEval([j \in DOMAIN at |-> [at |-> at[j], m |-> Meta(IF Chance(20) THEN "" ELSE Rnd({"p", "@s/p", "q"}), IF Chance(20) THEN NoVersion ELSE Rnd(Range(Pool)), j),
                                            broken |-> Rnd({"", "", "", "", "none", "bad", "away"})]])
  IN [k |-> "dir", dirs |-> dirs,
      asks |-> TLCEval([j \in 1..5 |-> [Ask0 EXCEPT !.k = "dir", !.alias = Nick(j), !.at = at[Rnd(DOMAIN at)], !.via = Rnd({"", "file:", "abs", "file:abs"}), !.json = Chance(60)]])]

Scenario(i_) == LET c == TLCEval(Rnd({1, 2, 3, 4, 5, 6})) IN IF c = 1 THEN InDir(1) ELSE IF c <= 3 THEN InRegistry(1) ELSE InGit(1)
Init == scn = <<>> /\ phase = 0
Next == \/ phase = 0 /\ phase' = 1 /\ \E s \in { Scenario(phase) } : scn' = s
        \/ phase = 1 /\ phase' = 2 /\ UNCHANGED scn /\ PrintT("@@" \o ToJson(scn))
=============================================================================
