-------------------------------- MODULE Retry --------------------------------
(***************************************************************************)
(* How often requests are made, when they fail.                              *)
(*                                                                         *)
(* A request meets a sequence of answers, one for each attempt; after the    *)
(* last one, all attempts are answered well.                                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

\* No answer at all, or one that tells to come again
Transient == {"close", "500", "502", "503", "504", "408", "429"}
\* An answer, and coming again won't change it
Permanent == {"400", "401", "403", "404", "410", "junk"}

Answer(f, i) == IF i <= Len(f) THEN f[i] ELSE "ok"
RECURSIVE Try(_, _, _)
Try(f, i, limit) == IF Answer(f, i) \in Transient /\ i <= limit THEN Try(f, i + 1, limit) ELSE i
\* How many attempts it takes, if there may be that many retries
Attempts(f, limit) == Try(f, 1, limit)
Succeeds(f, limit) == Answer(f, Attempts(f, limit)) = "ok"
=============================================================================
