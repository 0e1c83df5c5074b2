------------------------------ MODULE MCLogin ------------------------------
(***************************************************************************)
(* A client logging in, step by step, and a registry which answers whatever    *)
(* it pleases; the client may be killed at any moment. What's stored in the     *)
(* end is what was issued, and who isn't the registry learns nothing.          *)
(***************************************************************************)
EXTENDS Login, FiniteSets, IOUtils, TLC

Flag(f) == f \in DOMAIN IOEnv
CONSTANT Polls

Replies == [k : {"offer"}, page : {"p"}, done : {"own", "other"}] \cup { [k |-> "otp"], [k |-> "no"] }
           \cup [k : {"token"}, token : 1..2] \cup [k : {"wait"}, secs : 0..2]

VARIABLES way, pc, s, clock, log, store, known, opt
vars == <<way, pc, s, clock, log, store, known, opt>>
\* pc: idle (about to ask), asked, killed, over;  store: the token in the file (9: what was there before)
\* known: who has seen the password or the token in the file

Init == /\ way \in {"web", "legacy"} /\ pc = "idle" /\ s = Begun /\ clock = 0 /\ log = <<>> /\ store = 9 /\ known = {} /\ opt = 0

Target == IF s.at = "poll" THEN s.done ELSE "own"
Ask == /\ pc = "idle" /\ ~ Over(s) /\ Len(log) < Polls
       /\ (Flag("MC_NOWAIT") \/ clock >= s.due)
       /\ log' = Append(log, [what |-> s.at, time |-> clock])
       /\ known' = IF Target = "own" \/ Flag("MC_SHOW") THEN known \cup {Target} ELSE known
       /\ pc' = "asked" /\ UNCHANGED <<way, s, clock, store, opt>>
Reply == /\ pc = "asked"
         /\ \E r \in Replies :
              /\ s' = IF Flag("MC_LENIENT") /\ r.k = "no" THEN s ELSE IF Flag("MC_AGAIN") /\ s.at = "otp" /\ r.k = "otp" THEN s ELSE After(way, s, r, clock)
              \* the one given last, whether or not it was asked for
              /\ opt' = IF r.k = "token" THEN r.token ELSE opt
              /\ store' = IF Flag("MC_EARLY") /\ r.k = "offer" THEN 0 ELSE store
         /\ pc' = "idle" /\ UNCHANGED <<way, clock, log, known>>
Tick == clock < 4 /\ clock' = clock + 1 /\ UNCHANGED <<way, pc, s, log, store, known, opt>>
Finish == /\ pc = "idle" /\ Over(s) /\ pc' = "over"
          /\ store' = IF s.at = "done" THEN s.token ELSE IF Flag("MC_WIPE") THEN 0 ELSE store
          /\ UNCHANGED <<way, s, clock, log, known, opt>>
Kill == pc \in {"idle", "asked"} /\ pc' = "killed" /\ UNCHANGED <<way, s, clock, log, store, known, opt>>
Next == Ask \/ Reply \/ Tick \/ Finish \/ Kill

\* Something's stored only when the last answer was a token, and it's that one
Stored == store # 9 => pc = "over" /\ s.at = "done" /\ store = opt /\ s.token = opt
Kept == pc \in {"killed"} \/ (pc = "over" /\ s.at = "failed") => store = 9
Private == known \subseteq {"own"}
Waits == pc = "asked" => log[Len(log)].time >= s.due
OneOtp == Cardinality({ i \in DOMAIN log : log[i].what = "otp" }) <= 1 /\ Cardinality({ i \in DOMAIN log : log[i].what = "ask" }) <= 1
Right == Stored /\ Kept /\ Private /\ Waits /\ OneOtp
=============================================================================
