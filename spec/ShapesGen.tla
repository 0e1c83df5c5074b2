---------------------------- MODULE ShapesGen ----------------------------
EXTENDS Shapes, Json, TLC, Randomization, SequencesExt

VARIABLES scn, phase
Rnd(S) == RandomElement(S)
Chance(n) == RandomElement(1..100) <= n

Counts == {"dependencies", "devDependencies", "optionalDependencies", "peerDependencies", "deprecated", "_hasShrinkwrap", "bundleDependencies",
           "dist.integrity", "dist.shasum", "dist.npm-signature", "dist.tarball", "name", "version", "dist"}
RootCounts == {"name", "version", "dependencies", "devDependencies", "optionalDependencies", "peerDependencies", "bundleDependencies"}
Odd == Kinds \cup {"dict0", "list0", "host", "key"}

\* Mostly in what isn't needed, so that many of them are to come out right
Spot(src) ==
  IF src = "root" THEN [where |-> "root", f |-> IF Chance(75) THEN Rnd(NeedlessRoot) ELSE Rnd(RootCounts), kind |-> Rnd(Odd)]
  ELSE LET w == Rnd({"old", "new", "new", "top"})
       IN \* (a LET is drawn anew wherever it's mentioned: the field has to go with where it is)
          [where |-> w, f |-> "", kind |-> Rnd(Odd)]
Field(s) ==
  IF s.where = "root" THEN s
  ELSE [s EXCEPT !.f = IF s.where = "top" THEN (IF Chance(70) THEN Rnd(NeedlessTop) ELSE Rnd({"versions", "dist-tags", "latest"}))
                       ELSE IF Chance(65) THEN Rnd(Needless) ELSE Rnd(Counts)]
\* Things that count, as they may be
Harmless(i_) == Rnd({ s \in [where : {"old", "new"}, f : Counts, kind : {"absent", "bool", "str", "dict0", "list0"}] : Takes(s.where, s.f, s.kind) })
Spots(src, n) == [i \in 1..n |-> IF src = "pack" /\ Chance(30) THEN Harmless(i) ELSE Field(TLCEval(Spot(src)))]

Own_(i_) == [name |-> Rnd({"right", "right", "absent", "num", "dict"}), bin |-> Rnd({"absent", "null", "bool", "num", "str", "dict", "dictodd", "list", "listodd"}),
             dirs |-> Rnd({"absent", "right", "right", "num", "list", "binnum"}), scripts |-> Rnd({"absent", "right", "odd", "num", "str", "list", "null"}),
             other |-> Rnd(Kinds), wrap |-> IF Chance(75) THEN "plain" ELSE Rnd({"bom", "twice", "cut", "array"})]
Plain == [name |-> "right", bin |-> "dict", dirs |-> "absent", scripts |-> "absent", other |-> "right", wrap |-> "plain"]
Edit(i_) == [op |-> Rnd({"del", "ins", "put", "cut", "dup"}), at |-> Rnd(0..999), n |-> Rnd({1, 1, 2, 5, 20}), tok |-> Rnd(0..15)]

\* A lockfile's or a config file's values: which of them, and what becomes of it
NpmAt == {"", "node_modules/a", "node_modules/b", "node_modules/a/node_modules/e", "packages/w", "node_modules/", "node_modules", "node_modules/@s/w", "a/node_modules/../b", "/node_modules/x"}
NpmFields == {"name", "version", "resolved", "integrity", "dependencies", "optionalDependencies", "link", "dev", "peer", "inBundle", "all", "nothing"}
KdlAt == {"root", "a", "b", "new", "lockfile-version"}
KdlFields == {"name", "version", "resolved", "integrity", "dependencies", "optional-dependencies", "nothing"}
Values == {"nl", "nul", "empty", "wide", "num", "big", "neg", "zero", "frac", "bool", "false", "null", "two", "kids", "none", "url", "quote", "path", "typed", "str"}
Options == {"registry", "cache", "loglevel", "default-tag", "concurrency", "script-concurrency", "retries", "proxy", "proxy-url", "no-proxy-domain", "auth.token", "auth.token", "auth.username",
            "auth.password", "auth.legacy-auth", "auth.", "auth", "scoped-registries", "scoped-registries.@s", "sentry-dsn", "telemetry", "first-time", "emoji", "progress", "quiet", "json", "lockfile",
            "lockfile-only", "locked", "hoisted", "scripts", "prefer-copy", "apply", "package-type", "validate", "sort", "dev", "config", "x-unknown", "--help", "a b", ""}
Value_(src) == [at |-> IF src = "npm" THEN Rnd(NpmAt) ELSE IF src = "kdl" THEN Rnd(KdlAt) ELSE "",
                f |-> Rnd(IF src = "npm" THEN NpmFields ELSE IF src = "kdl" THEN KdlFields ELSE IF Chance(25) THEN {"auth.token", "auth.username", "auth.password", "auth.legacy-auth"} ELSE Options), kind |-> Rnd(Values)]

Scenario(src) ==
  [src |-> src,
   cmd |-> Rnd(IF src \in {"pack", "http"} THEN {"apply", "apply", "hoisted", "view", "viewjson", "add", "lockonly", "reapply"}
               ELSE IF src = "tar" THEN {"apply", "hoisted", "reapply"}
               ELSE {"apply", "hoisted", "add", "remove", "lockonly", "reapply"}),
   was |-> src = "kdl" \/ (src \notin {"npm", "tar"} /\ Chance(25)),
   spots |-> IF src \in {"pack", "root"} THEN TLCEval(Spots(src, Rnd({1, 1, 2, 3}))) ELSE <<>>,
   own |-> IF src = "tar" THEN TLCEval(Own_(1)) ELSE Plain,
   edits |-> IF src \in {"kdl", "npm", "conf"} /\ Chance(50) THEN TLCEval([i \in 1..Rnd({1, 1, 2, 4}) |-> Edit(i)]) ELSE <<>>,
   vals |-> IF src \in {"kdl", "npm", "conf"} THEN TLCEval([i \in 1..Rnd({0, 1, 1, 2}) |-> Value_(src)]) ELSE <<>>,
   body |-> IF src = "http" THEN Rnd({"cut", "empty", "html", "latin", "nested", "bom", "null", "num", "list", "nul", "wide", "twice", "tarball", "notarball"}) ELSE ""]

Init == scn = <<>> /\ phase = 0
Next == \/ phase = 0 /\ phase' = 1 /\ \E src \in {Rnd({"pack", "pack 2", "pack 3", "tar", "tar 2", "root", "kdl", "npm", "npm 2", "conf", "conf 2", "http"})} :
             \E s \in { Scenario(IF src \in {"pack 2", "pack 3"} THEN "pack" ELSE IF src = "tar 2" THEN "tar" ELSE IF src = "npm 2" THEN "npm" ELSE IF src = "conf 2" THEN "conf" ELSE src) } : scn' = s
        \/ phase = 1 /\ phase' = 2 /\ UNCHANGED scn /\ PrintT("@@" \o ToJson(scn))
=============================================================================
