----------------------------- MODULE ScriptsGen -----------------------------
(***************************************************************************)
(* Projects whose packages have lifecycle scripts: quick and slow ones,     *)
(* failing ones, ones that cannot be started, and noisy ones.  A history is *)
(* a few applies, most of them adding something to what was there before.   *)
(***************************************************************************)
EXTENDS InstallGen

Trouble == IF "TROUBLE" \in DOMAIN IOEnv THEN IOEnv.TROUBLE ELSE "none"
Behaviour(i_) ==
  [how |-> IF Trouble = "some" /\ Chance(14) THEN Rnd({"fail", "fail", "kill", "nostart"})
           ELSE IF Chance(6) THEN "noise" ELSE "ok",
   ms |-> Rnd({0, 0, 5, 10, 20, 40})]

SDressed(v) == [p |-> v.p, v |-> v.v,
                deps |-> SelectSeq([i \in DOMAIN v.deps |->
                                     IF Trouble = "some" /\ Chance(25) THEN [v.deps[i] EXCEPT !.k = "opt"] ELSE v.deps[i]],
                                   LAMBDA d : Rank(d.p) > Rank(v.p) \/ Chance(15)),
                bins |-> IF Chance(50) THEN <<>> ELSE Some(BinPool(v.p), 60, v),
                scripts |-> IF Chance(25) THEN <<>> ELSE Some(<<"preinstall", "install", "postinstall">>, 65, v)]
SDress(U, i_) == [U EXCEPT !.vers = [i \in DOMAIN U.vers |-> SDressed(U.vers[i])]]

Optional(ds, i_) == [i \in DOMAIN ds |-> IF Trouble = "some" /\ Chance(30) THEN [ds[i] EXCEPT !.k = "opt"] ELSE ds[i]]
SStep(k) ==
  /\ Done(k) /\ k < 3 /\ step' = step + 1
  /\ UNCHANGED <<vers, tags, root, order, conc, late, retag, edit>>
  /\ \E skip \in { k > 0 /\ Chance(35) } :
     IF skip THEN UNCHANGED steps
     ELSE \E r \in { IF steps = <<>> THEN Optional(root, k)
                     ELSE Edited(U0, steps[Len(steps)].root, Rnd({"drop", "change", "add", "add", "add"}), k) } :
       steps' = Append(steps, [root |-> r, mode |-> Rnd({"isolated", "hoisted"}), sconc |-> Rnd({1, 2, 2, 3, 6}), conc |-> Rnd({2, 50}),
                               noscripts |-> Chance(8)])
SFinish ==
  /\ Done(3) /\ step' = step + 1
  /\ \E U1 \in { Mended(U0, step) } : \E U2 \in { SDress(U1, step) } :
     \E how \in { [i \in DOMAIN U2.vers |-> [j \in DOMAIN U2.vers[i].scripts |-> Behaviour(i + j)]] } :
     \E rs \in { UNION { Range(MendAll(U1, steps[i].root)) : i \in DOMAIN steps } } :
       IF MayNestForever(U2, SetToSeq(rs)) THEN TRUE ELSE
       PrintT("@@" \o ToJson([uni |-> U2, how |-> how, steps |-> [i \in DOMAIN steps |-> [steps[i] EXCEPT !.root = MendAll(U1, @)]]]))
  /\ UNCHANGED <<vers, tags, root, order, conc, late, retag, edit, steps>>

SNext == ((Publish \/ TagIt \/ Project) /\ UNCHANGED <<late, retag, edit, steps>>) \/ (\E k \in 0..2 : SStep(k)) \/ SFinish
=============================================================================
