----------------------------- MODULE InstallGen -----------------------------
(***************************************************************************)
(* Histories of one project: applies of changing manifests in either       *)
(* layout and with various options, foreign changes to node_modules,       *)
(* and applies that are killed or fail half-way.                           *)
(***************************************************************************)
EXTENDS LockGen

VARIABLE steps
ivars == <<lvars, steps>>

Theme == IF "THEME" \in DOMAIN IOEnv THEN IOEnv.THEME ELSE "mixed"

BinPool(p) ==
  CASE p = "a" -> << <<"a", "cli.js">>, <<"a-tool", "bin/tool.js">> >>
    [] p = "b" -> << <<"b", "./bin/b.js">>, <<"bee", "bee.sh">> >>
    [] p = "c" -> << <<"see", "bin/c.js">> >>
    [] p = "d" -> << <<"d", "d.js">>, <<"d-two", "lib/d.js">> >>
    [] p = "@s/e" -> << <<"e", "./e.js">>, <<"e-two", "bin/e.js">> >>
    [] OTHER -> << <<"f", "bin/deep/f.js">> >>
Some(s, pc, i_) == SelectSeq(s, LAMBDA x : Chance(pc))
Rank(p) == CHOOSE i \in DOMAIN Order : Order[i] = p
(* mostly without cycles: the layout of these is the business of C01 and C02 *)
Dressed(v) == [p |-> v.p, v |-> v.v, deps |-> SelectSeq(v.deps, LAMBDA d : Rank(d.p) > Rank(v.p) \/ Chance(8)),
               bins |-> IF Chance(40) THEN <<>> ELSE Some(BinPool(v.p), 70, v),
               scripts |-> IF Chance(70) THEN <<>> ELSE Some(<<"preinstall", "install", "postinstall">>, 55, v)]
Dress(U, i_) == [U EXCEPT !.vers = [i \in DOMAIN U.vers |-> Dressed(U.vers[i])]]

IInit == LInit /\ steps = <<>>

RandMode(i_) == CASE Theme = "isolated" -> IF Chance(88) THEN "isolated" ELSE "hoisted"
                  [] Theme = "hoisted"  -> IF Chance(88) THEN "hoisted" ELSE "isolated"
                  [] OTHER -> IF Chance(50) THEN "hoisted" ELSE "isolated"
NoFlags == [locked |-> FALSE, lockonly |-> FALSE, nolock |-> FALSE, noscripts |-> FALSE, noapply |-> FALSE,
            copy |-> FALSE, nocache |-> FALSE]
RandFlags(i_) ==
  IF Theme = "frozen" THEN [NoFlags EXCEPT !.locked = Chance(65), !.lockonly = Chance(25), !.nolock = Chance(10)] ELSE IF Theme \in {"crash", "clear", "again"} \/ Chance(60)
  THEN [NoFlags EXCEPT !.copy = Chance(15), !.nocache = Chance(8)]
  ELSE [locked |-> Chance(20), lockonly |-> Chance(12), nolock |-> Chance(15), noscripts |-> Chance(10),
        noapply |-> FALSE, copy |-> Chance(20), nocache |-> Chance(15)]
Apply(r, m, f, fault, at) ==
  [op |-> "apply", cmd |-> "apply", root |-> r, mode |-> m, flags |-> f, fault |-> fault, at |-> at, conc |-> Rnd({1, 2, 3, 50, 50}), n |-> ""]
ForeignKinds == {"rm-entry", "stray-file", "foreign-pkg", "foreign-scope", "foreign-link", "wrong-link", "rm-meta",
                 "bad-meta", "rm-store-pkg", "rm-nm", "rm-lock", "foreign-file-at", "foreign-bin", "bad-lock"}
\* changes to the inside of packages and the like, which only clearing everything undoes
TamperKinds == {"tamper", "tamper", "tamper-bin", "add-file", "del-file", "bin-file", "nm-link", "nested-stray", "built-again", "no-exec"}
Foreign(k) == [op |-> k, cmd |-> "", root |-> <<>>, mode |-> "", flags |-> NoFlags, fault |-> "", at |-> Rnd(0..999), conc |-> 0, n |-> Rnd(Names)]

RandFault(i_) == IF Theme \in {"crash", "clear", "reapply"} THEN (IF Chance(75) THEN "crash" ELSE Rnd({"http", "script", "corrupt"}))
                 ELSE IF Chance(85) THEN "" ELSE Rnd({"crash", "http", "script", "corrupt"})

(* what the last apply in the history asked for *)
LastApply == LET is == { i \in DOMAIN steps : steps[i].op = "apply" } IN
             steps[CHOOSE i \in is : \A j \in is : j <= i]
HasApply == \E i \in DOMAIN steps : steps[i].op = "apply"

Grow(s) == steps' = Append(steps, s) /\ UNCHANGED <<gvars, late, retag, edit>>

(* the shape of a history: each element says what kind of step comes next *)
Plan == CASE Theme = "clear" -> <<"first", "fault", "again?", "edit?", "final", "again">>
          [] Theme = "crash" -> <<"first?", "fault", "edit?", "fault?", "final", "again">>
          [] Theme = "again" -> <<"first", "again", "edit", "again">>
          [] Theme = "reapply" -> <<"first?", "tamper", "tamper?", "fault?", "re", "again?", "tamper", "re">>
          [] OTHER -> <<"first", "edit?", "foreign?", "edit", "foreign?", "edit", "again">>

U0 == [vers |-> vers, tags |-> tags]
Done(k) == step >= 37 /\ step = 37 + k

Step(k) ==
  /\ Done(k) /\ k < Len(Plan) /\ step' = step + 1
  /\ UNCHANGED <<vers, tags, root, order, conc, late, retag, edit>>
  /\ \E what \in { Plan[k + 1] } : \E skip \in { Chance(40) } :
     IF what \in {"first?", "edit?", "foreign?", "fault?", "tamper?", "again?"} /\ skip THEN UNCHANGED steps
     ELSE \E m \in { RandMode(k) } : \E f \in { RandFlags(k) } : \E at \in { IF Theme \in {"clear", "reapply"} /\ Chance(60) THEN Rnd(0..200) ELSE Rnd(0..999) } :
       \E r \in { IF ~ HasApply THEN root ELSE IF Theme \in {"reapply", "clear"} /\ Chance(65) THEN LastApply.root ELSE Edited(U0, LastApply.root, Rnd({"same", "drop", "change", "change", "add", "kind"}), k) } :
       steps' = Append(steps,
         CASE what \in {"first", "first?"} -> Apply(root, m, [NoFlags EXCEPT !.copy = f.copy, !.nocache = f.nocache], "", 0)
           [] what \in {"again", "again?"} -> [LastApply EXCEPT !.fault = "", !.cmd = "apply"]
           [] what \in {"edit", "edit?"} -> Apply(r, m, f, RandFault(k), at)
           [] what \in {"fault", "fault?"} -> [Apply(IF HasApply THEN r ELSE root, m, NoFlags, RandFault(k), at)
                                                 EXCEPT !.cmd = IF Theme \in {"reapply", "clear"} /\ Chance(75) THEN "reapply" ELSE "apply"]
           [] what = "final" -> Apply(LastApply.root, m, NoFlags, "", 0)
           [] what = "re" -> [Apply(r, m, [f EXCEPT !.noapply = Chance(25)], IF Chance(80) THEN "" ELSE RandFault(k), at) EXCEPT !.cmd = "reapply"]
           [] what \in {"tamper", "tamper?"} -> Foreign(IF Chance(70) THEN Rnd(TamperKinds) ELSE Rnd(ForeignKinds))
           [] OTHER -> Foreign(Rnd(ForeignKinds)))

IFinish ==
  /\ Done(Len(Plan)) /\ step' = step + 1
  /\ \E U1 \in { Mended(U0, step) } : \E U2 \in { Dress(U1, step) } :
     \E rs \in { UNION { Range(MendAll(U1, steps[i].root)) : i \in DOMAIN steps } } :
       \* layouts that may be endless take long to be given up (see C02)
       IF MayNestForever(U2, SetToSeq(rs)) THEN TRUE ELSE
       PrintT("@@" \o ToJson([uni |-> U2, steps |-> [i \in DOMAIN steps |-> [steps[i] EXCEPT !.root = MendAll(U1, @)]]]))
  /\ UNCHANGED <<vers, tags, root, order, conc, late, retag, edit, steps>>

INext == ((Publish \/ TagIt \/ Project) /\ UNCHANGED <<late, retag, edit, steps>>) \/ (\E k \in 0..8 : Step(k)) \/ IFinish
=============================================================================
