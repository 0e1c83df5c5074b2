------------------------------- MODULE MCStream -------------------------------
(***************************************************************************)
(* The layers a package's entries are read through. The source is a sequence *)
(* of blocks; the archive ends at some block and there may be more after it. *)
(* A buffer reads ahead of the archive by up to Ahead blocks. Whoever reads    *)
(* may stop reading any entry part way, skip it or drop everything.          *)
(*                                                                         *)
(* The digest is of the blocks that were read from the source, and is        *)
(* compared when the source says there's no more. A clean end of the entries  *)
(* must mean that the comparison was made and came out right - unless        *)
(* there's nothing to compare to.                                          *)
(*                                                                         *)
(* Variants: NODRAIN ends with the archive; EMPTYREAD takes a read of no      *)
(* bytes for the end.                                                      *)
(***************************************************************************)
EXTENDS Stream, IOUtils

CONSTANTS MaxArchive, MaxTail, Ahead
Flag(f) == f \in DOMAIN IOEnv

VARIABLES guard, tamper, arch, tail, cut, taken, eaten, compared, out, ended, ask
vars == <<guard, tamper, arch, tail, cut, taken, eaten, compared, out, ended, ask>>
\* arch blocks of archive, tail more of them; cut: where the connection drops (0: it doesn't)
Total == arch + tail

Init ==
  /\ guard \in {"any", "published", "never"}
  /\ tamper \in {"none", "head", "tail", "cut"}
  /\ arch \in 1..MaxArchive /\ tail \in 0..MaxTail
  /\ cut = 0 /\ taken = 0 /\ eaten = 0 /\ compared = "no" /\ out = <<>> /\ ended = "" /\ ask = 0
  /\ (tamper = "tail" => tail > 0)
InitCut == \E c \in 0..(arch + tail - 1) : cut' = c

\* One read from the source. Yields a block, the end, or an error.
AtEnd == taken = Total
Dropped == tamper = "cut" /\ taken = cut
Take(n) ==
  IF Dropped THEN [kind |-> "error"]
  ELSE IF AtEnd THEN
    (IF compared # "no" THEN [kind |-> "end"]
     ELSE IF guard = "any" THEN [kind |-> "end"]
     ELSE IF guard = "published" /\ tamper = "none" THEN [kind |-> "end"] ELSE [kind |-> "mismatch"])
  ELSE [kind |-> "block"]

\* The connection's fate is decided at the start.
Start == ask = 0 /\ ask' = 1 /\ (IF tamper = "cut" THEN InitCut ELSE cut' = 0)
         /\ UNCHANGED <<guard, tamper, arch, tail, taken, eaten, compared, out, ended>>

Running == ask = 1 /\ ended = ""
Buffer ==   \* the buffer is filled, ahead of the archive
  /\ Running /\ taken - eaten < Ahead /\ eaten < arch
  /\ LET t == Take(1) IN
     CASE t.kind = "block" -> taken' = taken + 1 /\ UNCHANGED <<compared, out, ended>>
       [] t.kind = "end" -> compared' = (IF AtEnd /\ compared = "no" THEN "ok" ELSE compared) /\ UNCHANGED <<taken, out, ended>> /\ compared = "no"
       [] t.kind = "mismatch" -> compared' = "bad" /\ out' = Append(out, "error") /\ UNCHANGED <<taken, ended>>
       [] OTHER -> out' = Append(out, "error") /\ ended' = "error" /\ UNCHANGED <<taken, compared>>
  /\ UNCHANGED <<guard, tamper, arch, tail, cut, eaten, ask>>
Eat ==      \* the archive takes a block: an entry, part of one, or its end
  /\ Running /\ eaten < taken /\ eaten < arch
  /\ eaten' = eaten + 1
  /\ out' = IF eaten' < arch THEN Append(out, "entry") ELSE out
  /\ UNCHANGED <<guard, tamper, arch, tail, cut, taken, compared, ended, ask>>
Nothing ==  \* a read of no bytes
  /\ Running /\ Flag("MC_EMPTYREAD") /\ compared = "no" /\ guard # "any"
  /\ compared' = "bad" /\ out' = Append(out, "error") /\ ended' = "error"
  /\ UNCHANGED <<guard, tamper, arch, tail, cut, taken, eaten, ask>>
Drain ==
  /\ Running /\ eaten = arch /\ ~ Flag("MC_NODRAIN")
  /\ LET t == Take(1) IN
     CASE t.kind = "block" -> taken' = taken + 1 /\ UNCHANGED <<compared, out, ended>>
       [] t.kind = "end" -> compared' = (IF compared = "no" THEN "ok" ELSE compared) /\ ended' = "clean" /\ UNCHANGED <<taken, out>>
       [] t.kind = "mismatch" -> compared' = "bad" /\ out' = Append(out, "error") /\ ended' = "error" /\ UNCHANGED taken
       [] OTHER -> out' = Append(out, "error") /\ ended' = "error" /\ UNCHANGED <<taken, compared>>
  /\ UNCHANGED <<guard, tamper, arch, tail, cut, eaten, ask>>
Stop ==     \* what happens without draining
  /\ Running /\ eaten = arch /\ Flag("MC_NODRAIN") /\ ended' = "clean"
  /\ UNCHANGED <<guard, tamper, arch, tail, cut, taken, eaten, compared, out, ask>>
Quit == Running /\ ended' = "dropped" /\ UNCHANGED <<guard, tamper, arch, tail, cut, taken, eaten, compared, out, ask>>
Next == Start \/ Buffer \/ Eat \/ Nothing \/ Drain \/ Stop \/ Quit
Spec == Init /\ [][Next]_vars

Err == \E i \in DOMAIN out : out[i] = "error"
Right == guard = "any" \/ (guard = "published" /\ tamper = "none")
\* It only ends cleanly, with no error on the way, if the content is right and all there ...
Validated == ended = "clean" /\ ~ Err => Right /\ taken = Total
\* ... and if it is, there's no error.
NoAlarm == Err => ~ Right \/ tamper = "cut"
\* An answer that the content is wrong is given after all of it was read, not before.
Whole == compared # "no" => taken = Total \/ Flag("MC_EMPTYREAD")
\* Entries come one by one, none before its block was read.
Entries == Cardinality({ i \in DOMAIN out : out[i] = "entry" }) <= taken
Sound == Validated /\ NoAlarm /\ Whole /\ Entries
=============================================================================
