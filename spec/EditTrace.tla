----------------------------- MODULE EditTrace -----------------------------
(***************************************************************************)
(* Follows a manifest through edits.                                         *)
(***************************************************************************)
EXTENDS Edit, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad

If(c, s) == IF c THEN { ToString(s) } ELSE {}
Listed(x) == [k \in Sections |-> [i \in DOMAIN x.start[k] |-> [n |-> x.start[k][i].n, s |-> Written(x.start[k][i], Prefixes[x.start[k][i].t], x.start[k][i].v), p |-> x.start[k][i].p]]]
\* (one whose requirement isn't a string)
First(x) == LET L == Listed(x) one == [n |-> "a", s |-> "?", p |-> "a"] IN
  IF x.bad # "number" THEN L
  ELSE [L EXCEPT !["prod"] = IF \E i \in DOMAIN @ : @[i].n = "a" THEN [i \in DOMAIN @ |-> IF @[i].n = "a" THEN one ELSE @[i]] ELSE Append(@, one)]
Broken(x, M, ks) == \E k \in ks : \E i \in DOMAIN M[k] : M[k][i].p \in Range(x.broken)
\* A package named on the command line alone is asked for by its default tag
Asked(d) == IF d.t = "none" THEN [d EXCEPT !.t = "tag", !.g = "latest"] ELSE d
NotNames == {"./a", "a/b", "github:a/b"}

Step(x, M, i) ==
  LET o == x.ops[i]
      d == o.did
      picks == [j \in DOMAIN o.specs |-> IF o.specs[j].t = "bad" THEN NoVersion ELSE Select(x.uni, Asked(o.specs[j]), "latest")]
      entries == [j \in DOMAIN o.specs |-> [n |-> o.specs[j].n, s |-> IF picks[j] = NoVersion THEN "" ELSE Written(o.specs[j], Prefixes[o.prefix], picks[j]), p |-> o.specs[j].p]]
      tried == IF o.op = "add" THEN AddedAll(M, o.kind, entries) ELSE RemovedAll(M, o.names)
      wrong == x.bad \notin {"", "number"} \/ (\E k \in Sections : \E j \in DOMAIN tried[k] : tried[k][j].s = "?") \/ (\E j \in DOMAIN picks : picks[j] = NoVersion) \/ (\E j \in DOMAIN o.names : o.names[j] \in NotNames)
      New == IF wrong THEN M ELSE tried
      touched == IF o.op = "add" THEN { o.specs[j].n : j \in DOMAIN o.specs } ELSE Range(o.names)
      installs == o.mode \in {"full", "no-lockfile"}
      fails == wrong \/ (installs /\ Broken(x, New, {"prod", "dev"}))
      unsure == installs /\ Broken(x, New, {"opt", "peer"})
      now == [k \in Sections |-> [j \in DOMAIN d.now[k] |-> [n |-> d.now[k][j].n, s |-> d.now[k][j].s, p |-> ""]]]
      plain(N) == [k \in Sections |-> [j \in DOMAIN N[k] |-> [n |-> N[k][j].n, s |-> N[k][j].s, p |-> ""]]]
      isNew == d.read /\ Same(plain(New), now, touched) /\ d.rest /\ d.format
      has(n) == { d.installed[j].v : j \in { j \in DOMAIN d.installed : d.installed[j].n = n } }
      last(n) == o.specs[CHOOSE j \in DOMAIN o.specs : o.specs[j].n = n /\ \A h \in DOMAIN o.specs : o.specs[h].n = n => h <= j]
      pick(n) == picks[CHOOSE j \in DOMAIN o.specs : o.specs[j].n = n /\ \A h \in DOMAIN o.specs : o.specs[h].n = n => h <= j]
      probs == If(d.outcome \in {"panic", "hang"}, <<i, d.outcome>>)
               \cup If(d.outcome = "killed" /\ o.kill = 0, <<i, d.outcome>>)
               \cup If(d.outcome = "ok" /\ fails, <<i, o.op, "succeeds">>)
               \cup If(d.outcome = "error" /\ ~ fails /\ ~ unsure, <<i, o.op, "fails">>)
               \cup If(d.outcome \in {"error", "panic", "hang"} /\ ~ d.same, <<i, o.op, "manifest changed">>)
               \cup If(d.outcome = "killed" /\ ~ d.same /\ (fails \/ ~ isNew), <<i, o.op, "manifest damaged">>)
               \cup If(d.outcome = "ok" /\ ~ fails /\ ~ (d.read /\ Same(plain(New), now, touched)), <<i, o.op, "lists", now, plain(New)>>)
               \cup If(d.outcome = "ok" /\ ~ fails /\ ~ d.rest, <<i, o.op, "something else changed">>)
               \cup If(d.outcome = "ok" /\ ~ fails /\ d.rest /\ ~ d.format, <<i, o.op, "formatting changed">>)
               \cup (IF d.outcome = "ok" /\ ~ fails /\ installs /\ ~ unsure THEN
                       (IF o.op = "add" THEN UNION { If(~ \E v \in has(n) : IF o.prefix = "exact" THEN v = pick(n) ELSE InRange(v, [last(n) EXCEPT !.t = o.prefix, !.v = pick(n)]),
                                                        <<i, "adds", n, has(n), pick(n), o.prefix>>) : n \in touched }
                        ELSE UNION { If(has(n) # {}, <<i, "leaves", n>>) : n \in touched })
                       \cup If(d.locked = "error", <<i, o.op, "not what's locked">>)
                     ELSE {})
  IN [M |-> IF d.outcome = "ok" \/ (d.outcome = "killed" /\ ~ d.same) THEN New ELSE M, probs |-> probs]

RECURSIVE Walk(_, _, _)
Walk(x, M, i) == IF i > Len(x.ops) THEN {}
                 ELSE LET s == Step(x, M, i) IN IF s.probs # {} THEN s.probs ELSE Walk(x, s.M, i + 1)
Problems(x) == Walk(x, First(x), 1)

Init == l = 1 /\ bad = 0
Check ==
  /\ l <= Len(Trace)
  /\ LET ps == Problems(Trace[l])
     IN /\ bad' = IF ps = {} THEN bad ELSE bad + 1
        /\ IF ps = {} THEN TRUE ELSE PrintT("@@" \o ToJson([line |-> l, problems |-> ps]))
  /\ l' = l + 1
Next == Check
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
