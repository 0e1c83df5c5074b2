------------------------------ MODULE StreamGen ------------------------------
(***************************************************************************)
(* Packages, what's known of them, and ways of reading what's served.        *)
(***************************************************************************)
EXTENDS Stream, Json, IOUtils

Rnd(S) == RandomElement(S)
Chance(n) == RandomElement(1..100) <= n
VARIABLES scn, phase
vars == <<scn, phase>>

Long == "package/lib/a-directory-with-quite-a-long-name/and-another-one-in-it-that-is-also-long/then-a-third-for-good-measure/index.js"
F(p, k, s, to, x) == [path |-> p, kind |-> k, size |-> s, to |-> to, x |-> x]
Benign == { "package/package.json", "package/a.js", "package/lib/b.js", "package/bin/run", Long, "package/./c.js", "other/d.js", "e.js", "package/a b.js" }
Sizes == {0, 1, 9, 10, 11, 511, 512, 513, 8192, 70000}
Entry(i_) == LET c == TLCEval(Rnd(1..12)) IN
  IF c = 1 THEN F(Rnd({"package/sub", "package/lib", "package/empty/"}), "dir", 0, "", FALSE)
  ELSE F(Rnd(Benign), "file", Rnd(Sizes), "", Chance(25))
\* entries that would end up elsewhere
Hostile(i_) == Rnd({ << F("../dot.js", "file", 5, "", FALSE) >>, << F("package/../../../dot.js", "file", 5, "", FALSE) >>,
                     << F("{OUT}/abs.js", "file", 5, "", FALSE) >>, << F("{OUT}/keep", "file", 5, "", FALSE) >>,
                     << F("package/ln", "link", 0, "{OUT}", FALSE), F("package/ln/keep", "file", 5, "", FALSE) >>,
                     << F("package/ln", "link", 0, "../../out", FALSE), F("package/ln/keep", "file", 5, "", FALSE) >>,
                     << F("package/kl", "link", 0, "{OUT}/keep", FALSE), F("package/kl", "file", 5, "", FALSE) >> })
Ask(h, j_) ==
  LET api == Rnd({"tarball", "entries", "entries"})
      eat == IF h THEN "unpack" ELSE Rnd({"read", "read", "skip", "partial", "unpack", "unpack to", "stop"})
      t == TLCEval(IF Chance(25) THEN "none" ELSE Rnd(Tampers))
  IN [api |-> api, how |-> Rnd({"meta", "meta", "given", "none"}), given |-> Rnd({"right", "wrong", "multi", "alts", "alts2", "weak", "badweak"}),
      tamper |-> t, chunk |-> Rnd({1, 7, 512, 8192, 300000}), eat |-> eat, dirty |-> Chance(25)]

Scenario(i_) ==
  LET n == Rnd({0, 1, 2, 3, 5})
      h == Chance(12)
      fs == TLCEval([j \in 1..n |-> Entry(j)])
      hs == TLCEval(IF h THEN Hostile(1) ELSE <<>>)
  IN [name |-> Rnd({"p", "@s/p"}), files |-> fs \o hs, hostile |-> h, long |-> Rnd({"prefix", "pax", "gnu"}),
      meta |-> Rnd({"sri", "sri", "sum", "both", "none", "empty", "empty sum", "badsri", "badsum", "empty badsum"}), via |-> Rnd({"resolve", "resolve", "lock"}),
      cache |-> Chance(30), asks |-> TLCEval([j \in 1..6 |-> Ask(h, j)])]
Init == scn = <<>> /\ phase = 0
Next == \/ phase = 0 /\ phase' = 1 /\ \E s \in { Scenario(phase) } : scn' = s
        \/ phase = 1 /\ phase' = 2 /\ UNCHANGED scn /\ PrintT("@@" \o ToJson(scn))
=============================================================================
