------------------------------- MODULE MCSpec -------------------------------
(***************************************************************************)
(* Every string made of a few pieces means one thing, and what's written for   *)
(* that thing means it again; every documented form means what it says.        *)
(***************************************************************************)
EXTENDS Spec, IOUtils

Flag(f) == f \in DOMAIN IOEnv
Pieces == {"a", "B1", "@", "/", ":", ".", "#", "1.2.3", "^1.2.3", " ", "npm:", "file:", "github:", "git+", "ssh://", "git://", "https://", "github.com", ".git", "semver:", "\\", "}", "%"}
Limit == IF Flag("MC_SMALL") THEN 3 ELSE 4

VARIABLES text, n, doc
vars == <<text, n, doc>>

Names == {"a", "lo-dash", "@s/c"}
Sels == { <<>>, <<"rev", "main">>, <<"rev", "1.2.3">>, <<"semver", "^1.2.3">>, <<"semver", ">=1.0.0 <2.0.0">> }
Npms == { [k |-> "npm", name |-> m, req |-> r] : m \in Names, r \in { <<>> } \cup { <<t>> : t \in Ranges \cup {"latest", "v"} } }
Dirs == { [k |-> "dir", path |-> p] : p \in {"./a", "../a/b", ".", "..", "/a", "C:\\a", ".\\a", "./a#b", "/a:b c"} }
Hosteds == { [k |-> "hosted", host |-> h, owner |-> "o", repo |-> r, sel |-> s, via |-> ""] : h \in Hosts, r \in {"r", "r.js", "a.github.io"}, s \in Sels }
Base(d) == CHOOSE x \in DOMAIN Domains : Domains[x] = d
Vias == { [x EXCEPT !.via = v] : x \in Hosteds, v \in {"https://", "git://", "ssh://git@", "git@"} }
Hosteds2 == { [x EXCEPT !.via = x.via \o Base(x.host) \o (IF x.via = "git@" THEN ":" ELSE "/") \o "o/" \o x.repo \o g] : x \in Vias, g \in {"", ".git"} }
Urls == { [k |-> "url", url |-> u, sel |-> s] : u \in {"https://x.org/a/b.git", "git://x.org/a", "ssh://git@x.org/a", "ssh://git@x.org:22/a", "https://github.com/", "https://github.com/a", "git://github.com", "https://gitlab.com/a/b/c"}, s \in Sels }
Sshs == { [k |-> "ssh", ssh |-> u, sel |-> s] : u \in {"git@x.org:a/b", "x.org:a", "git@github.com:a/b/c"}, s \in Sels }
Plain == Npms \cup Dirs \cup Hosteds \cup Hosteds2 \cup Urls \cup Sshs
Docs == Plain \cup { [k |-> "alias", name |-> m, of |-> x] : m \in Names, x \in Plain }

Init == \/ text = "" /\ n = 0 /\ doc = Error
        \/ doc \in Docs /\ n = Limit /\ text = Write(doc)
Next == n < Limit /\ n' = n + 1 /\ doc' = doc /\ \E p \in Pieces : text' = text \o p

\* Ways of getting it wrong
WriteX(x) ==
  IF Flag("MC_SCP") /\ x.k = "hosted" /\ x.via # "" THEN (IF Starts(x.via, "git://") THEN "" ELSE "git+") \o x.via \o SelStr(x.sel)
  ELSE IF Flag("MC_ALIAS") /\ x.k = "alias" THEN x.name \o "@" \o Write(x.of)
  ELSE IF Flag("MC_GIT") /\ x.k = "url" THEN "git+" \o x.url
  ELSE Write(x)
ParseX(s) ==
  IF Flag("MC_NPMFIRST") /\ Npm(s).ok THEN Whole(Npm(s))
  ELSE IF Flag("MC_GITFIRST") /\ Git(s).ok THEN Whole(Git(s))
  ELSE Parse(s)
Kinds == {"npm", "alias", "dir", "hosted", "url", "ssh", "error", "unsure"}
Means == ParseX(text).k \in Kinds
Back == LET x == ParseX(text) IN x.k \notin {"error", "unsure"} => ParseX(WriteX(x)) = x
Documented == doc # Error => ParseX(text) = doc
=============================================================================
