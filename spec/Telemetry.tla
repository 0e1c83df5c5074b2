----------------------------- MODULE Telemetry -----------------------------
(***************************************************************************)
(* Who's asked for their consent to telemetry, and who gave it.               *)
(*                                                                         *)
(* Sources of an option are a run's command line (cli), the project's and     *)
(* the user's configuration files (proj, glob), or the one that's named       *)
(* instead of both (conf), and the environment (env), of which the first to   *)
(* say anything decides.                                                     *)
(* Each says [tel, first, dsn]: "on", "off" or nothing (""), and where         *)
(* reports go.                                                              *)
(*                                                                         *)
(* A run r has  cli, env, named (whether a file is), ci (run by one), tty      *)
(* (what's a terminal: "all", "none", "out", "in"), ans ("yes", "no", or       *)
(* "cut" if there'd be none) and fails (whether what's run does).             *)
(* What there is at a time: st = [proj, glob, conf].                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences

Nothing == [tel |-> "", first |-> "", dsn |-> ""]

RECURSIVE First(_, _, _)
First(srcs, o, def) == IF srcs = <<>> THEN def ELSE IF Head(srcs)[o] # "" THEN Head(srcs)[o] ELSE First(Tail(srcs), o, def)

Sources(r, st) == <<r.cli>> \o (IF r.named THEN <<st.conf>> ELSE <<st.proj, st.glob>>) \o <<r.env>>

\* Nobody's opted in who didn't say so.
Opted(r, st) == First(Sources(r, st), "tel", "off") = "on"
Dsn(r, st) == First(Sources(r, st), "dsn", "")

\* It's the first time until it's been said not to be
Due(r, st) == ~ r.ci /\ First(Sources(r, st), "first", "on") = "on"
Asks(r, st) == Due(r, st) /\ r.tty = "all"
Cut(r, st) == Asks(r, st) /\ r.ans = "cut"

\* The file it's noted in
File(r) == IF r.named THEN "conf" ELSE "glob"
Noted(r, st) ==
  IF ~ Due(r, st) \/ Cut(r, st) THEN st
  ELSE [st EXCEPT ![File(r)].first = "off", ![File(r)].tel = IF Asks(r, st) THEN (IF r.ans = "yes" THEN "on" ELSE "off") ELSE @]

\* Reports are for those that opted in, by the answer that's just been given included; and of failures only.
MaySend(r, st) == Opted(r, Noted(r, st)) /\ r.fails /\ Dsn(r, st) # "" /\ ~ Cut(r, st)
=============================================================================
