-------------------------- MODULE TelemetryTrace --------------------------
(***************************************************************************)
(* Follows what was asked, noted and sent, run by run.                         *)
(***************************************************************************)
EXTENDS Telemetry, Json, IOUtils, FiniteSets, SequencesExt, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad, could, did

If(c, s) == IF c THEN { ToString(s) } ELSE {}

AsRun(q) == [cli |-> q.cli, env |-> q.env, named |-> q.named, ci |-> q.ci \notin {"", "false"}, tty |-> q.tty, ans |-> q.ans, fails |-> q.cmd # "ok"]
Said(f, old) == [old EXCEPT !.tel = f.tel, !.first = f.first]
Same(a, b) == a.tel = b.tel /\ a.first = b.first

\* What a run may leave: as it was, what's to be noted, or (not having asked) that it's not the first time any more
After(x, r, st, q) ==
  LET o == Noted(r, st)
      f == File(r)
  IN IF q.outcome = "crashed" THEN {st[f], o[f]}
     ELSE IF x.blocked /\ ~ r.named THEN {st[f]}
     ELSE IF Asks(r, st) THEN {o[f]}
     ELSE IF Due(r, st) THEN {st[f], o[f]}
     ELSE {st[f]}

Step(x, q, st) ==
  LET r == AsRun(q)
      f == File(r)
      g == IF f = "glob" THEN "conf" ELSE "glob"
      d == q.did
      fix == x.blocked /\ ~ r.named /\ Due(r, st)
  IN If(d.outcome \in {"panic", "hang"}, <<"outcome", d.outcome>>)
     \cup If(d.asked # Asks(r, st) /\ ~ (d.outcome = "crashed") /\ ~ (fix /\ ~ d.asked) /\ ~ (r.tty = "out" /\ Due(r, st)), <<"asked", d.asked>>)
     \cup (IF d.outcome = "crashed" \/ fix \/ (r.tty = "out" /\ Due(r, st)) THEN {}
           ELSE IF Cut(r, st) THEN If(d.outcome = "ok", <<"goes on, interrupted">>)
           ELSE If(d.outcome # (IF r.fails THEN "error" ELSE "ok"), <<"outcome", d.outcome, q.cmd>>))
     \cup If(~ \E s \in After(x, r, st, [outcome |-> d.outcome]) : Same(s, d[f]), <<"noted", f, d[f].tel, d[f].first, "of", st[f], "answer", IF d.asked THEN r.ans ELSE "-">>)
     \cup If(~ d[f].rest, <<"lost something of", f>>)
     \cup If(~ d[f].same /\ (~ Due(r, st) \/ Cut(r, st)), <<"changed", f>>)
     \cup If(~ d[g].same, <<"changed", g>>)
     \cup If(~ d.proj, <<"changed the project's">>)
     \cup If(d.sent # <<>> /\ ~ MaySend(r, st), <<"sent without", Opted(r, Noted(r, st)), r.tty>>)
     \cup If(\E i \in DOMAIN d.sent : d.sent[i] # Dsn(r, Noted(r, st)), <<"sent elsewhere">>)
     \cup { ToString(<<"secret in", d.leaks[i]>>) : i \in DOMAIN d.leaks }
     \cup If(d.strays # <<>>, <<"left", d.strays>>)

RECURSIVE Walk(_, _, _, _)
Walk(x, i, st, probs) ==
  IF i > Len(x.steps) \/ probs # {} THEN probs
  ELSE LET q == x.steps[i]
           r == AsRun(q)
       IN Walk(x, i + 1, [st EXCEPT ![File(r)] = Said(q.did[File(r)], st[File(r)])],
               { ToString(<<i, p>>) : p \in Step(x, q, st) })

Start(x) == [glob |-> x.glob.say, proj |-> x.proj.say, conf |-> x.conf.say]
Problems(x) == Walk(x, 1, Start(x), {})

RECURSIVE Chances(_, _, _)
Chances(x, i, st) ==
  IF i > Len(x.steps) THEN 0
  ELSE LET q == x.steps[i]
           r == AsRun(q)
       IN (IF MaySend(r, st) /\ Dsn(r, Noted(r, st)) # "dead" /\ q.did.outcome = "error" /\ ~ x.blocked THEN q.did.runs ELSE 0)
          + Chances(x, i + 1, [st EXCEPT ![File(r)] = Said(q.did[File(r)], st[File(r)])])
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))

Init == l = 1 /\ bad = 0 /\ could = 0 /\ did = 0
Check ==
  /\ l <= Len(Trace)
  /\ LET x == Trace[l]
         c == could + Chances(x, 1, Start(x))
         d == did + Sum([i \in DOMAIN x.steps |-> Len(x.steps[i].did.sent)])
         \* of those who opted in one in ten is meant to be heard
         ps == Problems(x) \cup If(l = Len(Trace) /\ c >= 400 /\ d = 0, <<"nothing's ever sent", c>>)
     IN /\ bad' = IF ps = {} THEN bad ELSE bad + 1
        /\ could' = c /\ did' = d
        /\ IF ps = {} THEN TRUE ELSE PrintT("@@" \o ToJson([line |-> l, problems |-> ps]))
  /\ l' = l + 1
Next == Check
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
