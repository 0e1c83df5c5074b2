----------------------------- MODULE LoginTrace -----------------------------
(***************************************************************************)
(* Follows the requests made while logging in, one by one.                    *)
(***************************************************************************)
EXTENDS Login, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad

If(c, s) == IF c THEN { ToString(s) } ELSE {}

\* The reply to the i-th request: those to the first, to that with the one-time password, and to the polls. A token is
\* numbered by the request it was an answer to.
Reply(x, s, polls, i) ==
  LET r == IF s.at = "otp" THEN x.otp ELSE IF s.at = "poll" THEN x.polls[polls + 1] ELSE x.ask
  IN CASE r.k = "offer" -> [k |-> "offer", page |-> "p", done |-> x.done]
       [] r.k = "token" -> [k |-> "token", token |-> i]
       [] r.k = "wait" -> [k |-> "wait", secs |-> r.secs * 1000]
       [] r.k = "otp" -> [k |-> "otp"]
       [] OTHER -> [k |-> "no"]

Within(x, q) == q.what # "poll" \/ x.done = "own" \/ (x.done = "outside" /\ x.path = <<>>)
HasOwn(x) == x.pre \in {"token", "basic", "legacy"}

RECURSIVE Walk(_, _, _, _)
Walk(x, s, polls, i) ==
  IF i > Len(x.did.reqs) THEN [s |-> s, probs |-> {}]
  ELSE LET q == x.did.reqs[i]
           probs == If(Over(s), <<i, "asks again", s.at>>)
                    \cup If(~ Over(s) /\ q.what # s.at, <<i, "asks for", q.what, s.at>>)
                    \cup If(~ Over(s) /\ q.gap < s.due, <<i, "doesn't wait", q.gap, s.due>>)
                    \cup If(~ q.proper, <<i, "not as it should be">>)
                    \cup If(q.what = "poll" /\ (q.leak \/ q.otp # 0), <<i, "shows the password">>)
                    \cup If(q.what # "poll" /\ q.otp # (IF q.what = "otp" THEN 1 ELSE 0), <<i, "one-time password", q.otp>>)
                    \cup If(q.auth # (IF HasOwn(x) /\ Within(x, q) THEN 1 ELSE 0), <<i, "authorization", q.auth>>)
       IN IF probs # {} \/ Over(s) THEN [s |-> s, probs |-> probs]
          ELSE \* time starts afresh with each reply
               LET killed == x.kill = i
               IN IF killed THEN [s |-> [s EXCEPT !.at = "killed"], probs |-> If(i < Len(x.did.reqs), "asks again though it's killed")]
                  ELSE Walk(x, After(x.way, s, Reply(x, s, polls, i), 0), IF s.at = "poll" THEN polls + 1 ELSE polls, i + 1)

Problems(x) ==
  \* (there's no way to tell a registry about a scope with such a name; either it isn't told, or it isn't asked)
  LET none == (x.way = "legacy" /\ ~ x.tty) \/ (x.scope = "uml" /\ x.did.reqs = <<>>)
      w == IF none THEN [s |-> Failed(Begun), probs |-> If(x.did.reqs # <<>>, "asks without knowing who for")] ELSE Walk(x, Begun, 0, 1)
      s == w.s
      d == x.did
  IN w.probs
     \cup (IF w.probs # {} THEN {} ELSE
           If(~ Over(s) /\ s.at # "killed", <<"gives up", s.at, d.outcome>>)
           \cup If(s.at = "done" /\ d.outcome # "ok", <<"outcome", d.outcome>>)
           \cup If(s.at = "failed" /\ d.outcome # "error", <<"outcome of failing", d.outcome>>)
           \cup If(s.at = "done" /\ d.stored # s.token, <<"stored", d.stored, s.token>>)
           \cup If(s.at = "done" /\ x.scope # "" /\ ~ d.scoped, <<"scope not stored">>)
           \cup If(s.at # "done" /\ ~ d.kept, <<"file changed", s.at>>)
           \cup If(~ d.rest, <<"others' credentials changed">>)
           \cup If(d.shown, <<"password or token printed">>)
           \cup If(d.opened # s.open /\ s.at # "killed", <<"opened", d.opened, s.open>>))

Init == l = 1 /\ bad = 0
Check ==
  /\ l <= Len(Trace)
  /\ LET ps == Problems(Trace[l])
     IN /\ bad' = IF ps = {} THEN bad ELSE bad + 1
        /\ IF ps = {} THEN TRUE ELSE PrintT("@@" \o ToJson([line |-> l, problems |-> ps]))
  /\ l' = l + 1
Next == Check
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
