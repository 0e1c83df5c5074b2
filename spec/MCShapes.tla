----------------------------- MODULE MCShapes -----------------------------
(***************************************************************************)
(* A command reads what it needs (of two versions of a package, one of       *)
(* which it chooses, and of what the package brings along), and changes       *)
(* things. However what it reads looks, it ends, with what was asked for or   *)
(* an error, and what it doesn't need makes no difference.                     *)
(***************************************************************************)
EXTENDS Shapes, IOUtils, TLC

VARIABLES doc, own, phase, lock, placed, bins, ran
vars == <<doc, own, phase, lock, placed, bins, ran>>
Bug(b) == b \in DOMAIN IOEnv

Fields == {"license", "dependencies", "deprecated", "dist.tarball", "bundleDependencies"}
Spots == [where : {"old", "new"}, f : Fields, kind : {"right", "absent", "bool", "str", "num", "dict0", "list0"}]
Owns == [name : {"right", "num"}, bin : {"absent", "num", "str", "dict", "dictodd", "list", "listodd"}, dirs : {"absent", "right", "num"},
         scripts : {"absent", "right", "odd", "num"}, wrap : {"plain", "bom", "twice", "cut"}]
Plain == [name |-> "right", bin |-> "dict", dirs |-> "absent", scripts |-> "absent", wrap |-> "plain"]

Init ==
  /\ \/ doc \in { <<s, t>> : s \in Spots, t \in { x \in Spots : x.where = "new" } } /\ own = Plain
     \/ doc = <<>> /\ own \in Owns
  /\ phase = "read" /\ lock = "old" /\ placed = {} /\ bins = {} /\ ran = FALSE

\* What a careful reader makes of a spot: it's taken, refused, or (not careful) the end of it all
Reads(s) ==
  IF Bug("MC_STRICT") /\ s.f = "license" /\ s.kind \notin {"right", "absent", "str"} THEN "refused"
  ELSE IF Bug("MC_CRASH") /\ s.f = "dist.tarball" /\ s.kind = "absent" THEN "crash"
  ELSE IF Bug("MC_OLDTOO") /\ s.where = "old" /\ s.kind = "absent" THEN "refused"
  ELSE IF Takes(s.where, s.f, s.kind) THEN "taken" ELSE "refused"

Read ==
  /\ phase = "read"
  /\ phase' = IF \E i \in DOMAIN doc : Reads(doc[i]) = "crash" THEN "crashed"
              ELSE IF \E i \in DOMAIN doc : Reads(doc[i]) = "refused" THEN (IF Bug("MC_LATE") THEN "late" ELSE "error") ELSE "place"
  /\ lock' = IF Bug("MC_LATE") THEN "new" ELSE lock
  /\ UNCHANGED <<doc, own, placed, bins, ran>>
Late == phase = "late" /\ phase' = "error" /\ UNCHANGED <<doc, own, lock, placed, bins, ran>>
Place ==
  /\ phase = "place"
  /\ IF ~ (IF Bug("MC_NOBOM") THEN own.wrap = "plain" ELSE Readable(own)) THEN phase' = "error" /\ UNCHANGED <<lock, placed, bins, ran>>
     ELSE IF Bug("MC_BINODD") /\ own.bin \in {"dictodd", "listodd"} THEN phase' = "error" /\ UNCHANGED <<lock, placed, bins, ran>>
     ELSE /\ placed' = {"a", "b"} /\ bins' = Bins(own) /\ phase' = "build"
          /\ UNCHANGED <<lock, ran>>
  /\ UNCHANGED <<doc, own>>
Build ==
  /\ phase = "build" /\ ran' = (IF Bug("MC_SKIPODD") THEN own.scripts = "right" ELSE Runs(own))
  /\ phase' = "ok" /\ lock' = "new" /\ UNCHANGED <<doc, own, placed, bins>>
Next == Read \/ Late \/ Place \/ Build
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Ended == phase \in {"ok", "error"}
Right ==
  /\ phase # "crashed"
  /\ phase = "error" => (~ AllTake(doc) \/ ~ Readable(own)) /\ lock = "old"
  /\ phase = "ok" => placed = {"a", "b"} /\ bins = Bins(own) /\ ran = Runs(own) /\ lock = "new"
Ends == <>Ended
=============================================================================
