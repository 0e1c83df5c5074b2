----------------------------- MODULE RetryTrace -----------------------------
(***************************************************************************)
(* Checks how often each request has been made, and what came of it.         *)
(***************************************************************************)
EXTENDS Retry, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad

\* The requests the command has to make: what for, how it's answered, and how often it's been made
Needed(x) ==
  IF x.cmd = "ping" THEN { <<"ping", 0, x.ping, x.did.ping>> }
  ELSE (IF x.cmd = "frozen" THEN {} ELSE { <<"meta", i, x.pkgs[i].meta, x.did.meta[i]>> : i \in DOMAIN x.pkgs })
       \* to view a package takes another request, for all there is to know about it
       \cup { <<"tar", i, x.pkgs[i].tar, x.did.tar[i]>> : i \in DOMAIN x.pkgs }

\* A request may be made several times over (whether it's made once for all uses of what's asked for isn't our
\* concern), but each time just as if it were the only one, and not again once it has failed.
\* What has become of it, n attempts in total, the one due next being i:
RECURSIVE Fate(_, _, _, _)
Fate(f, i, n, limit) ==
  LET e == Try(SubSeq(f, i, Len(f)), 1, limit) + i - 1
  IN IF n < i THEN IF i = 1 THEN "none" ELSE "ok"
     ELSE IF n < e THEN "open"
     ELSE IF Answer(f, e) = "ok" THEN Fate(f, e + 1, n, limit)
     ELSE IF n = e THEN "failed" ELSE "too often"

If(c, s) == IF c THEN { ToString(s) } ELSE {}
Problems(x) ==
  LET N == Needed(x)
      fate(q) == Fate(q[3], 1, q[4], x.limit)
  IN UNION { If(fate(q) = "too often", <<"too often", q>>) : q \in N }
     \cup (CASE x.did.outcome = "ok" -> UNION { If(fate(q) # "ok", <<"not all right", fate(q), q>>) : q \in N }
            [] x.did.outcome = "error" -> If(\A q \in N : fate(q) # "failed", <<"fails for no reason", N>>)
            [] OTHER -> { ToString(<<"outcome", x.did.outcome>>) })

Init == l = 1 /\ bad = 0
Check ==
  /\ l <= Len(Trace)
  /\ LET ps == Problems(Trace[l])
     IN /\ bad' = IF ps = {} THEN bad ELSE bad + 1
        /\ IF ps = {} THEN TRUE ELSE PrintT("@@" \o ToJson([line |-> l, problems |-> ps]))
  /\ l' = l + 1
Next == Check
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
