---------------------------- MODULE MCTelemetry ----------------------------
(***************************************************************************)
(* Run after run, by people of all kinds, in terminals and without; killed at *)
(* times. What they said last is kept beside it all, in `said`.               *)
(***************************************************************************)
EXTENDS Telemetry, FiniteSets, IOUtils, TLC

Flag(f) == f \in DOMAIN IOEnv
CONSTANT Runs

Says == {"", "on", "off"}
\* the command line can do without a word on some things
Files == { [tel |-> t, first |-> f, dsn |-> "D"] : t \in Says, f \in Says }
Projs == { [tel |-> t, first |-> "", dsn |-> ""] : t \in Says }
Clis == { [tel |-> t, first |-> f, dsn |-> ""] : t \in Says, f \in {"", "off"} }
Some == [cli : Clis, env : {Nothing}, named : {FALSE}, ci : BOOLEAN, tty : {"all", "none"}, ans : {"yes", "no", "cut"}, fails : {TRUE}]

VARIABLES st, n, said, asked, sent, over
vars == <<st, n, said, asked, sent, over>>
\* said: [glob: what the file's owner or an answer last said]; asked: how often, since the file last said to;
\* sent: the runs that sent something, with what'd been said before; over: whether there's been a first time

Init == /\ \E g \in Files, p \in Projs : st = [proj |-> p, glob |-> g, conf |-> Nothing] /\ said = g.tel /\ over = (g.first = "off")
        /\ n = 0 /\ asked = 0 /\ sent = {}

\* How things might be wrong
Opted2(r, b, s) == IF Flag("MC_DEFAULTON") THEN First(Sources(r, s), "tel", "on") = "on"
                ELSE IF Flag("MC_ANSWERWINS") /\ Asks(r, b) THEN r.ans = "yes"
                ELSE Opted(r, s)
Noted2(r, s) ==
  LET o == Noted(r, s)
  IN IF Flag("MC_KEEPS") /\ s.glob.tel # "" THEN [o EXCEPT !.glob.tel = s.glob.tel]
     ELSE IF Flag("MC_CUTISOVER") /\ Cut(r, s) THEN [s EXCEPT !.glob.first = "off"]
     ELSE IF Flag("MC_CUTISYES") /\ Cut(r, s) THEN [s EXCEPT !.glob.first = "off", !.glob.tel = "on"]
     ELSE IF Flag("MC_AGAIN") THEN [o EXCEPT !.glob.first = s.glob.first]
     ELSE o
Run(r) ==
  LET o == Noted2(r, st)
      answered == Asks(r, st) /\ ~ Cut(r, st)
  IN /\ n < Runs /\ n' = n + 1
     /\ st' = o
     /\ said' = IF answered THEN (IF r.ans = "yes" THEN "on" ELSE "off") ELSE said
     /\ asked' = IF answered THEN asked + 1 ELSE asked
     /\ over' = (over \/ (Due(r, st) /\ ~ Cut(r, st)))
     /\ sent' = IF Opted2(r, st, o) /\ ~ Cut(r, st) THEN sent \cup {[cli |-> r.cli.tel, proj |-> st.proj.tel, said |-> said', ci |-> r.ci]} ELSE sent
\* Killed while noting it: the file is as it was, or as it was to be
Killed(r) == /\ ~ Flag("MC_NOKILL") /\ n < Runs /\ n' = n + 1
             /\ \/ UNCHANGED <<st, said, asked, over>>
                \/ Flag("MC_TORN") /\ Due(r, st) /\ ~ Cut(r, st) /\ st' = [st EXCEPT !.glob = Nothing] /\ UNCHANGED <<said, asked, over>>
                \/ st' = Noted(r, st)
                   /\ over' = (over \/ (Due(r, st) /\ ~ Cut(r, st)))
                   /\ said' = (IF Asks(r, st) /\ ~ Cut(r, st) THEN (IF r.ans = "yes" THEN "on" ELSE "off") ELSE said)
                   /\ asked' = (IF Asks(r, st) /\ ~ Cut(r, st) THEN asked + 1 ELSE asked)
             /\ UNCHANGED sent
\* The file's owner changes their mind
Edit == /\ n < Runs /\ n' = n + 1
        /\ \E t \in Says : st' = [st EXCEPT !.glob.tel = t] /\ said' = t
        /\ UNCHANGED <<asked, sent, over>>
Next == (\E r \in Some : Run(r) \/ Killed(r)) \/ Edit

\* Whatever was sent was by someone who'd said so, last, where it counts
Consented == \A x \in sent : \/ x.cli = "on"
                             \/ x.cli = "" /\ x.proj = "on"
                             \/ x.cli = "" /\ x.proj = "" /\ x.said = "on"
Once == asked <= 1
Kept == st.glob.tel = said /\ st.glob.dsn = "D"
\* Having been interrupted, they'll be asked the next time
Asked == st.glob.first = "off" => over
Right == Asked /\ Consented /\ Once /\ Kept
=============================================================================
