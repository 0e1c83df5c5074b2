------------------------------- MODULE Login -------------------------------
(***************************************************************************)
(* Logging in by asking the registry: either a page to log in at is opened    *)
(* while we keep asking whether it's done, or name and password are sent, and *)
(* perhaps a one-time password after that.                                   *)
(*                                                                         *)
(* s.at     what's to be asked for next: "ask", "otp" or "poll", or how it     *)
(*          ended: "done" or "failed"                                       *)
(* s.due    when the next request may be made, at the earliest               *)
(* s.open   pages opened so far                                             *)
(* s.token  the token there is in the end                                    *)
(*                                                                         *)
(* A reply r is one of                                                      *)
(*   offer [page, done]   there's a page, and a place to ask whether it's done *)
(*   otp                  a one-time password is needed                      *)
(*   token [token]                                                          *)
(*   wait [secs]                                                            *)
(*   anything else is a refusal, or nonsense                                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences

Begun == [at |-> "ask", due |-> 0, open |-> <<>>, token |-> 0, done |-> ""]
Failed(s) == [s EXCEPT !.at = "failed"]
Done(s, t) == [s EXCEPT !.at = "done", !.token = t]
Opened(s, r, now) == [s EXCEPT !.at = "poll", !.due = now, !.open = Append(@, r.page), !.done = r.done]

\* What becomes of it when the reply r arrives at the time now
After(way, s, r, now) ==
  CASE s.at = "ask" /\ r.k = "offer" -> Opened(s, r, now)
    [] s.at = "ask" /\ r.k = "otp" /\ way = "legacy" -> [s EXCEPT !.at = "otp", !.due = now]
    [] s.at = "ask" /\ r.k = "token" /\ way = "legacy" -> Done(s, r.token)
    [] s.at = "otp" /\ r.k = "token" -> Done(s, r.token)
    [] s.at = "poll" /\ r.k = "token" -> Done(s, r.token)
    [] s.at = "poll" /\ r.k = "wait" -> [s EXCEPT !.due = now + r.secs]
    [] OTHER -> Failed(s)
Over(s) == s.at \in {"done", "failed"}
=============================================================================
