----------------------------- MODULE SharedGen -----------------------------
(***************************************************************************)
(* Several projects with one cache: rounds of commands that run at the     *)
(* same time, how their steps in the cache are interleaved, which of them  *)
(* are killed half-way, and what happens to the cache between the rounds.  *)
(***************************************************************************)
EXTENDS InstallGen

Rounds == 3
Projects(i_) == Rnd({2, 2, 2, 3})

(* how long each goes on before another does; then all are let go           *)
RandSched(n, i_) == [j \in 1..Rnd({4, 12, 24, 40}) |->
   [p |-> Rnd(1..n), n |-> Rnd({1, 1, 2, 3, 5, 8, 13, 30, 80}), kill |-> Chance(IF i_ = Rounds THEN 0 ELSE 2)]]
RandProc(r, i_) ==
  [what |-> IF i_ = Rounds THEN "apply" ELSE Rnd({"apply", "apply", "apply", "apply", "apply", "apply", "view", "ping"}),
   root |-> r, mode |-> Rnd({"hoisted", "isolated"}), copy |-> Chance(15), fresh |-> Chance(45),
   conc |-> Rnd({1, 2, 3, 50, 50}), at |-> Rnd(0..999)]
RandBefore(i_) ==
  [logs |-> Rnd({0, 0, 4, 5, 6, 9}),
   harm |-> IF i_ = 1 \/ Chance(40) THEN "" ELSE Rnd({"no content", "some content", "some content", "cut content", "cut content", "no index", "some index", "cut index", "no cache", "tmp"}),
   at |-> Rnd(0..999)]
RandRound(ps, i_) == [before |-> RandBefore(i_), procs |-> ps, sched |-> RandSched(Len(ps), i_)]

SStep(k) ==
  /\ Done(k) /\ k < Rounds /\ step' = step + 1
  /\ UNCHANGED <<vers, tags, root, order, conc, late, retag, edit>>
  /\ \E n \in { IF steps = <<>> THEN Projects(k) ELSE Len(steps[1].procs) } :
     \E rs \in { TLCEval([j \in 1..n |-> IF steps = <<>> THEN Edited(U0, root, Rnd({"same", "same", "drop", "change", "add"}), j)
                                 ELSE Edited(U0, steps[Len(steps)].procs[j].root, Rnd({"same", "same", "drop", "change", "add"}), j)]) } :
     \E ps \in { TLCEval([j \in 1..n |-> RandProc(rs[j], k + 1)]) } :
     \E rd \in { TLCEval(RandRound(ps, k + 1)) } :
       steps' = Append(steps, rd)

(* files that several packages and versions have in common                  *)
Alike(V, i_) == [i \in DOMAIN V |-> ("extra" :> (CASE Chance(60) -> << <<"LICENSE", "as is">>, <<"lib/same.js", "shared">> >>
                                                  [] Chance(50) -> << <<"LICENSE", "as is">> >> [] OTHER -> <<>>)) @@ V[i]]

SFinish ==
  /\ Done(Rounds) /\ step' = step + 1
  /\ \E U1 \in { Mended(U0, step) } : \E U2 \in { Dress(U1, step) } :
     \E rs \in { UNION { UNION { Range(MendAll(U1, steps[i].procs[j].root)) : j \in DOMAIN steps[i].procs } : i \in DOMAIN steps } } :
       IF MayNestForever(U2, SetToSeq(rs)) THEN TRUE ELSE
       PrintT("@@" \o ToJson([uni |-> [U2 EXCEPT !.vers = TLCEval(Alike(@, step))], rounds |-> [i \in DOMAIN steps |->
          [steps[i] EXCEPT !.procs = [j \in DOMAIN @ |-> [@[j] EXCEPT !.root = MendAll(U1, @)]]]]]))
  /\ UNCHANGED <<vers, tags, root, order, conc, late, retag, edit, steps>>

SNext == ((Publish \/ TagIt \/ Project) /\ UNCHANGED <<late, retag, edit, steps>>) \/ (\E k \in 0..5 : SStep(k)) \/ SFinish
=============================================================================
