---------------------------- MODULE SharedTrace ----------------------------
(***************************************************************************)
(* Checks rounds of commands that ran at the same time with one cache (see *)
(* SharedGen): whatever the others do, however they are interleaved and    *)
(* wherever they are killed, each does what it does on its own.            *)
(***************************************************************************)
EXTENDS Install, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad

Fair(x, pc) == pc.what # "apply" \/ (Resolvable(x.uni, pc.root) /\ ~ MayNestForever(x.uni, pc.root))

One(x, pc) ==
  LET o == pc.obs T == TreeOf(o.lock) IN
  IF o.killed THEN {}
  ELSE IF o.outcome # "ok" THEN IF o.outcome = "error" /\ ~ Fair(x, pc) THEN {} ELSE { <<pc.what, o.outcome>> }
  ELSE IF pc.what # "apply" THEN {}
  ELSE LET w == Wrong(pc.mode, x.uni, pc.root, T, o.disk) IN
       w \cup { <<"unmet", nd[1], nd[2].n>> : nd \in UnmetIn(x.uni, pc.root, T) }
         \cup (IF w # {} THEN {} ELSE BinsWrong(pc.mode, x.uni, pc.root, T, o.disk))
         \cup Unbuilt(x.uni, o.disk)

Problems(x) ==
  UNION { UNION { { <<i, j>> \o p : p \in One(x, x.rounds[i].procs[j]) } : j \in DOMAIN x.rounds[i].procs }
          : i \in DOMAIN x.rounds }

Init == l = 1 /\ bad = 0
Check ==
  /\ l <= Len(Trace)
  /\ LET ps == Problems(Trace[l])
     IN /\ bad' = IF ps = {} THEN bad ELSE bad + 1
        /\ IF ps = {} THEN TRUE ELSE PrintT("@@" \o ToJson([line |-> l, problems |-> ps]))
  /\ l' = l + 1
Next == Check
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
