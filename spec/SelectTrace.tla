---------------------------- MODULE SelectTrace ----------------------------
(* Checks which version each recorded request was given. *)
EXTENDS Semver, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad

(* got[i]: the version chosen, <<>> for an error *)
Problems(x) ==
  IF x.outcome # "ok" THEN {<<"failed", x.outcome>>} ELSE
  { <<"selected", x.reqs[i].t, x.reqs[i].v, x.reqs[i].w, x.reqs[i].g, x.got[i], Select(x.uni, x.reqs[i], x.deftag)>> :
      i \in { j \in DOMAIN x.reqs : x.got[j] # Select(x.uni, x.reqs[j], x.deftag) } }

Init == l = 1 /\ bad = 0
Check ==
  /\ l <= Len(Trace)
  /\ LET ps == Problems(Trace[l])
     IN /\ bad' = IF ps = {} THEN bad ELSE bad + 1
        /\ IF ps = {} THEN TRUE ELSE PrintT("@@" \o ToJson([line |-> l, problems |-> ps]))
  /\ l' = l + 1
Next == Check
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
