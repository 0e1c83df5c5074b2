-------------------------------- MODULE Stream --------------------------------
(***************************************************************************)
(* Packages' contents as streams: a tarball that's read as it arrives, the   *)
(* archive within it, and the check of the whole that can only be made once  *)
(* all of it has been read.                                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

\* What has to be what was published for a reader to be told that all's well:
\* "published" (the content itself), "never" (something else was expected), "any".
ByMeta(meta) == CASE meta \in {"sri", "sum", "both", "empty sum"} -> "published"
                  [] meta \in {"badsri", "badsum", "empty badsum"} -> "never"
                  [] OTHER -> "any"
ByGiven(g) == IF g \in {"right", "weak", "multi", "alts", "alts2"} THEN "published" ELSE "never"
Guard(meta, how, given) == CASE how = "meta" -> ByMeta(meta) [] how = "given" -> ByGiven(given) [] OTHER -> "any"

\* What's served: as published ("none"), some other archive that can be read, or one that can't.
Readable == {"none", "swap", "alter", "tail", "big tail", "pad", "hdr", "level"}
\* (whether these can be told from the archive alone isn't certain)
Unsure == {"flip", "empty", "short"}
Broken == {"trunc", "notgz", "drop"}
Tampers == Readable \cup Unsure \cup Broken

Good(guard, tamper) == guard = "any" \/ (guard = "published" /\ tamper = "none")
=============================================================================
