--------------------------- MODULE ShapesTrace ---------------------------
(***************************************************************************)
(* What commands made of data of odd shapes.                                   *)
(***************************************************************************)
EXTENDS Shapes, Json, IOUtils, SequencesExt, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad

If(c, s) == IF c THEN { ToString(s) } ELSE {}
Views == {"view", "viewjson"}

\* Whether it has to come out right
Must(x) ==
  /\ x.cmd \notin Views
  /\ \/ x.src = "pack" /\ AllTake(x.spots)
     \/ x.src = "root" /\ AllTake(x.spots)
     \/ x.src = "tar" /\ Readable(x.own)
     \/ x.src = "http" /\ x.body = "wide"
Expected(x) == Plan(x.cmd)

Problems(x) ==
  LET d == x.did
      all == Expected(x)
  IN If(d.outcome \notin {"ok", "error"}, <<"outcome", d.outcome, x.cmd>>)
     \cup If(x.outcome0 # "ok", <<"before", x.outcome0>>)
     \cup If(Must(x) /\ d.outcome = "error", <<"refused", x.cmd>>)
     \cup If(d.outcome = "error" /\ ~ d.same, <<"failed, and changed something", x.cmd>>)
     \cup (IF Must(x) /\ d.outcome = "ok" /\ x.cmd # "lockonly"
           THEN If({ d.there[i] : i \in DOMAIN d.there } # { n \o (IF n = "a" THEN "@1.1.0" ELSE "@1.0.0") : n \in all }, <<"installed", d.there>>)
                \cup If({ d.bins[i] : i \in DOMAIN d.bins } # Bins(x.own), <<"bins", d.bins, Bins(x.own)>>)
                \cup If(d.ran # Runs(x.own), <<"ran", d.ran>>)
           ELSE {})

Init == l = 1 /\ bad = 0
Check ==
  /\ l <= Len(Trace)
  /\ LET ps == Problems(Trace[l])
     IN /\ bad' = IF ps = {} THEN bad ELSE bad + 1
        /\ IF ps = {} THEN TRUE ELSE PrintT("@@" \o ToJson([line |-> l, problems |-> ps]))
  /\ l' = l + 1
Next == Check
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
