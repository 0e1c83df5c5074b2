----------------------------- MODULE ConfigGen -----------------------------
(***************************************************************************)
(* Options in all the places they can be given, spelled in all the ways      *)
(* there are, for commands with something to show for them.                  *)
(***************************************************************************)
EXTENDS Config, Json, IOUtils, TLC, Randomization

Rnd(S) == RandomElement(S)
Chance(n) == RandomElement(1..100) <= n

VARIABLES scn, phase
vars == <<scn, phase>>

Bools(cmd) == {"json", "quiet", "emoji"} \cup (IF cmd = "apply" THEN {"hoisted", "lockfile", "lockfile-only", "scripts", "prefer-copy", "locked"} ELSE {})
Vals(cmd) == {"registry", "cache", "root", "loglevel", "no-proxy-domain", "proxy-url"} \cup (IF cmd = "ping" THEN {"retries"} ELSE {"default-tag"})

ValOf(o) ==
  CASE o = "registry" -> Rnd({"R1", "R2", "R3"})
    [] o = "cache" -> Rnd({"K1", "K2", "K3"})
    [] o = "root" -> Rnd({"p1", "p2"})
    [] o = "loglevel" -> Rnd({"off", "error", "warn", "info", "debug", "trace"})
    [] o = "retries" -> Rnd({"0", "1", "1", "2"})
    [] o = "default-tag" -> Rnd({"latest", "beta", "old", "true"})
    [] o = "proxy-url" -> Rnd({"X1", "X2"})
    [] o = "no-proxy-domain" -> Rnd({"127.0.0.1", "127.0.0.2", "localhost", "localhost,127.0.0.1", "other.example"})
    [] OTHER -> Rnd({"true", "false"})

\* What one source says about some of the options: each of them with the chance q, out of 100
RECURSIVE Some(_, _, _)
Some(os, q, n) == IF os = {} THEN <<>> ELSE LET o == CHOOSE o \in os : TRUE IN
  (IF Chance(q) THEN <<[o |-> o, k |-> "", v |-> ValOf(o), how |-> Rnd(1..12)]>> ELSE <<>>) \o Some(os \ {o}, q, n)

RECURSIVE Table(_, _, _, _)
Table(o, ks, q, n) == IF ks = {} THEN <<>> ELSE LET k == CHOOSE k \in ks : TRUE IN
  (IF Chance(q) THEN <<[o |-> o, k |-> k, v |-> IF o = "auth" THEN Rnd({"T1", "T2", "T3"}) ELSE Rnd({"R1", "R2", "R3"}), how |-> Rnd(1..12)]>> ELSE <<>>)
    \o Table(o, ks \ {k}, q, n)
Tabs(q, n) == IF Chance(q) THEN Table("scoped-registries", {"@s", "@t"}, 60, n) \o Table("auth", {"R1", "R2", "R3"}, 60, n) ELSE <<>>

\* Now and then, a flag is given more than once on the command line
Twice(q) == FlattenSeq([i \in DOMAIN q |-> IF q[i].v \in {"true", "false"} /\ q[i].o # "default-tag" /\ Chance(12)
                                           THEN <<[q[i] EXCEPT !.v = IF @ = "true" THEN "false" ELSE "true"], q[i]>> ELSE <<q[i]>>])

Scenario(i_) ==
  LET cmd == Rnd({"apply", "apply", "apply", "ping", "view"})
      \* some options at a time get most of the attention
      focus == Rnd({ f \in SUBSET (Bools(cmd) \cup Vals(cmd)) : Cardinality(f) \in 1..4 })
      os(nope) == (Bools(cmd) \cup Vals(cmd)) \ nope
      src(nope, n) == TLCEval(Some((focus \ nope), 55, n) \o Some(os(nope) \ focus, 6, n))
      useConf == Chance(20)
      cli == TLCEval(Twice(src({}, 1)) \o Tabs(25, 1))
      env == src({}, 2)
      glob == TLCEval(src({}, 3) \o Tabs(45, 3))
      p1 == TLCEval(src({"root"}, 4) \o Tabs(45, 4))
      p2 == TLCEval(src({"root"}, 5) \o Tabs(45, 5))
      conf == IF useConf THEN TLCEval(src({}, 6) \o Tabs(45, 6)) ELSE <<>>
      at == Rnd({"p1", "p1", "p2", "p2", ""})
      x == [cmd |-> cmd, cli |-> cli, env |-> env, glob |-> glob, conf |-> conf, useConf |-> useConf,
            proj |-> [p1 |-> p1, p2 |-> p2], at |-> at, deep |-> Chance(35), dashes |-> Chance(30), nop |-> Rnd({"", "", "", "127.0.0.1", "localhost"}),
            down |-> cmd = "ping" /\ "retries" \in focus /\ Chance(60), stale |-> cmd = "apply" /\ Chance(IF "locked" \in focus THEN 70 ELSE 15)]
      set(o, v) == [o |-> o, k |-> "", v |-> v, how |-> Rnd(1..12)]
      \* there has to be a registry, a cache, and for apply a project; and
      \* what's meant to go through a proxy goes through one
      fix1 == IF Effective(x, "registry") = "" THEN <<set("registry", "R1")>> ELSE <<>>
      fix2 == IF Effective(x, "cache") = "" THEN <<set("cache", "K1")>> ELSE <<>>
      fix3 == IF Root(x) = "" THEN <<set("root", "p1")>> ELSE <<>>
      x3 == TLCEval([x EXCEPT !.env = SelectSeq(@, LAMBDA e : e.o \notin { f.o : f \in Range(fix1 \o fix2 \o fix3) }) \o fix1 \o fix2 \o fix3])
  IN x3

\* Proxies are only used if asked for
Proxied(x, j_) == LET s == [o |-> "proxy", k |-> "", v |-> "true", how |-> 1]
                  IN IF Effective(x, "proxy-url") = "" THEN x ELSE IF Chance(50) THEN [x EXCEPT !.cli = Append(@, s)] ELSE
                     [x EXCEPT !.env = Append(@, s)]

Init == scn = <<>> /\ phase = 0
Next == \/ phase = 0 /\ phase' = 1 /\ \E s \in { Scenario(phase) } : scn' = s
        \/ phase = 1 /\ phase' = 2 /\ \E s \in { Proxied(scn, phase) } : scn' = s
        \/ phase = 2 /\ phase' = 3 /\ UNCHANGED scn /\ PrintT("@@" \o ToJson(scn))
=============================================================================
