----------------------------- MODULE ExtractGen -----------------------------
(***************************************************************************)
(* Packages with all sorts of tarballs, and histories of installing them    *)
(* with and without a cache, in all extraction modes, while the registry    *)
(* serves the wrong bytes, cached data gets damaged, and installed files    *)
(* get modified.                                                            *)
(***************************************************************************)
EXTENDS Extract, Json, IOUtils, TLC, Randomization

Theme == IF "THEME" \in DOMAIN IOEnv THEN IOEnv.THEME ELSE "cache"
Rnd(S) == RandomElement(S)
Chance(n) == RandomElement(1..100) <= n

VARIABLES pkgs, steps, phase
vars == <<pkgs, steps, phase>>

PathPool == << <<"index.js">>, <<"lib", "a.js">>, <<"lib", "b.js">>, <<"lib", "sub", "c.js">>, <<"bin", "run">>, <<"bin", "go">>,
               <<"README">>, <<"LONG", "LONG", "d.js">>, <<"LONG", "LONG", "e.js">>, <<"lib">>, <<"a.js">>,
               <<"node_modules", "q", "x.js">>, <<"LONG", "LONG", "LONG", "f">>, <<"UTF8", "g.js">> >>
WildPool == << <<"..", "evil">>, <<"..", "..", "evil">>, <<"lib", "..", "..", "evil">>, <<"..", "..", "..", "evil">>,
               <<"lib", "..", "x.js">>, <<"..", "other", "index.js">>, <<".", "y.js">>, <<"..", "keep">>, <<"..", "..", "keep">>,
               <<"..", "..", "..", "keep">>, <<"..", "NEIGHBOUR", "index.js">>, <<>>, <<"..", "..", "package.json">>,
               <<"..", "..", "bin", "run">> >>
Hostility == IF Theme \in {"hostile", "apply"} THEN 22 ELSE IF Theme = "cache" THEN 2 ELSE 0

Entry(i_) ==
  LET wild == Chance(Hostility)
      kind == IF Chance(85) THEN "file" ELSE Rnd({"dir", "symlink", "hardlink", "symlink"})
      path == IF wild THEN WildPool[Rnd(DOMAIN WildPool)] ELSE PathPool[Rnd(DOMAIN PathPool \ IF Theme = "apply" THEN {12} ELSE {})]  \* nothing bundled
  IN [top |-> IF wild /\ Chance(25) THEN Rnd({"..", ""}) ELSE IF Chance(85) THEN "package" ELSE Rnd({"pkg", ".", "package"}),
      path |-> path, kind |-> kind, cont |-> IF Chance(4) THEN Rnd({6, 7}) ELSE Rnd(1..5),
      mode |-> Rnd({644, 644, 644, 755, 755, 600, 775, 444, 664, 711}), link |-> Rnd({"index.js", "../../../keep", "/", "lib", "../.."})]

Manifest(last) == [top |-> "package", path |-> <<"package.json">>, kind |-> "file", cont |-> 0, mode |-> Rnd({644, 644, 600}), link |-> ""]

\* No file in the place of a directory: what to make of these is nobody's guess
Tidy(es) == SelectSeq(es, LAMBDA e : Wild(e) \/ e.kind # "file" \/
              ~ \E i \in DOMAIN es : es[i].kind = "file" /\ ~ Wild(es[i]) /\ es[i].path # e.path
                     /\ Len(es[i].path) > Len(e.path) /\ SubSeq(es[i].path, 1, Len(e.path)) = e.path)
Ents(i_) ==
  LET n == Rnd(0..7)
      es == TLCEval([j \in 1..n |-> Entry(j)])
      k == Rnd(0..n)
      all == SubSeq(es, 1, k) \o <<Manifest(k)>> \o SubSeq(es, k + 1, n)
  IN IF Chance(95) THEN Tidy(all) ELSE all

BinPaths(es) == { es[i].path : i \in { i \in DOMAIN es : es[i].kind = "file" /\ ~ Wild(es[i]) /\ es[i].cont # 0 } }
Bin_(es, j) ==
  [n |-> IF Chance(Hostility) THEN Rnd({"../evil", "..", "a/../../evil", ".", "x:..", "c\\..\\d", "..\\..\\evil", "..\\evil"}) ELSE "b" \o ToString(j),
   path |-> IF Chance(Hostility * 2) THEN Rnd({ <<"..", "keep">>, <<"..", "..", "keep">>, <<"..", "..", "..", "keep">>, <<"">>, <<"..", "NEIGHBOUR", "index.js">>,
                                            <<"..", "..", "package.json">>, <<"..", "..", "..", "run">>, <<"lib", "..", "..", "..", "..", "keep">> })
            ELSE IF Chance(12) \/ BinPaths(es) = {} THEN <<"missing.js">> ELSE (IF Chance(40) THEN <<".">> ELSE <<>>) \o Rnd(BinPaths(es))]

Pkg(i) ==
  LET es == TLCEval(Ents(i))
      form == Rnd({"hash", "hash", "str", "array", "dir"})
      nb == IF Chance(45) THEN 0 ELSE IF form \in {"str", "dir"} THEN 1 ELSE Rnd(1..2)
      bs0 == TLCEval([j \in 1..nb |-> Bin_(es, j)])
      same == nb = 2 /\ form = "array" /\ bs0[1].path[Len(bs0[1].path)] = bs0[2].path[Len(bs0[2].path)]
      bs == IF same THEN SubSeq(bs0, 1, 1) ELSE bs0
      scoped == Chance(30)
      odd == Theme = "apply" /\ Chance(12)
  IN [name |-> (IF scoped THEN "@s/p" ELSE "p") \o ToString(i), id |-> i,
      as |-> IF odd THEN Rnd({"@s/..", "@s/.", "..", ".", ".bin", "node_modules", ".oro-store", ".orogene-meta.kdl", "@../x", "@s/../../evil", "@/x", "a\\b",
                              "../evil", "@s/", ".package-lock.json"})
             ELSE (IF scoped THEN "@s/p" ELSE "p") \o ToString(i), long |-> Rnd({"prefix", "pax", "gnu"}), ents |-> es, form |-> form, bins |-> bs,
      named |-> ~ odd,
      scripts |-> IF Chance(IF Theme = "scripts" THEN 75 ELSE 15) THEN Rnd({ <<"install">>, <<"preinstall">>, <<"postinstall">>, <<"preinstall", "postinstall">> }) ELSE <<>>,
      integ |-> IF Theme = "integrity" THEN Rnd({"sha512", "sha512", "sha1", "shasum", "both", "bothbad1", "lock", "none", "sha256", "many"})
                ELSE Rnd({"sha512", "sha512", "sha512", "both", "sha1", "shasum", "none"})]
N(i_) == IF Theme = "apply" THEN Rnd(1..3) ELSE Rnd(1..2)

Modes == {"auto", "copy", "reflink", "autohardlink", "hardlink"}
BadServe == {"flip", "trunc", "empty", "other", "cut", "stuffed", "html"}
Step(ps, h) ==
  LET p == Rnd(DOMAIN ps)
      done == { i \in DOMAIN h : h[i].op = "install" }
      what == IF Theme = "integrity" THEN (IF Chance(12) THEN "swap" ELSE Rnd({"install", "install", "content"}))
              ELSE IF Theme = "scripts" THEN Rnd({"install", "install", "edit"})
              ELSE IF Theme = "apply" THEN "apply"
              ELSE Rnd({"install", "install", "install", "content", "content", "index", "edit"})
      install == [op |-> "install", p |-> p, cache |-> Chance(80), mode |-> Rnd(Modes),
                  serve |-> IF Chance(IF Theme = "integrity" THEN 55 ELSE 10) THEN Rnd(BadServe) ELSE "good",
                  how |-> "", which |-> 0, at |-> 0]
  IN IF what = "swap" THEN [install EXCEPT !.op = "swap", !.mode = Rnd({"hoisted", "isolated"}), !.serve = Rnd(BadServe), !.how = Rnd({"kdl", "npm"}), !.p = 1]
     ELSE IF what = "apply" THEN [install EXCEPT !.op = "apply", !.mode = Rnd({"hoisted", "isolated"}), !.serve = "good", !.p = 1]
     ELSE IF what = "install" \/ done = {} THEN install
     ELSE IF what = "edit" THEN [install EXCEPT !.op = "edit", !.at = Rnd(done), !.how = Rnd({"append", "overwrite", "truncate"}), !.which = Rnd(1..8)]
     ELSE [install EXCEPT !.op = what, !.how = Rnd({"delete", "truncate", "flip", "empty", "append"}), !.which = Rnd(0..6)]

Init == pkgs = <<>> /\ steps = <<>> /\ phase = 0
Publish == /\ phase = 0 /\ phase' = 1 /\ UNCHANGED steps
           /\ \E n \in { N(phase) } : \E ps \in { TLCEval([i \in 1..n |-> Pkg(i)]) } : pkgs' = ps
Act == /\ phase \in 1..6 /\ UNCHANGED pkgs
       /\ \E stop \in { (phase > 2 /\ Chance(15)) \/ (Theme = "apply" /\ phase > 2) } :
            IF stop THEN phase' = 7 /\ UNCHANGED steps
            ELSE phase' = phase + 1 /\ \E s \in { Step(pkgs, steps) } : steps' = Append(steps, s)
Done == /\ phase = 7 /\ phase' = 8 /\ UNCHANGED <<pkgs, steps>>
        /\ PrintT("@@" \o ToJson([pkgs |-> pkgs, steps |-> steps]))
Next == Publish \/ Act \/ Done
=============================================================================
