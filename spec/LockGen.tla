------------------------------ MODULE LockGen ------------------------------
(***************************************************************************)
(* A project and registry as in ResolverGen; then the registry moves on    *)
(* (more versions are published, tags move) and perhaps the project's own  *)
(* requirements are edited.                                                *)
(***************************************************************************)
EXTENDS ResolverGen, SequencesExt

VARIABLES late, retag, edit
lvars == <<gvars, late, retag, edit>>

LatePool == Pool \o << <<1,3,0,0>>, <<3,0,0,0>>, <<2,2,0,1>> >>

LInit == GInit /\ late = <<>> /\ retag = <<>> /\ edit = "same"

Base == (Publish \/ TagIt \/ Project) /\ UNCHANGED <<late, retag, edit>>

(* what each package publishes later, and where its tag moves *)
Later ==
  /\ step >= 37 /\ step < 43 /\ step' = step + 1
  /\ LET p == Order[step - 36]
         have == VersionsOf([vers |-> vers, tags |-> tags], p)
         new == { LatePool[i] : i \in DOMAIN LatePool } \ have
     IN \E some \in { { v \in new : Chance(50) } } :
        \E ds \in { [v \in some |-> Fix(RandDeps(Rnd({0,0,1,2}), Mode))] } :
        \E tg \in { IF have \cup some = {} \/ Chance(45) THEN NoVersion
                    ELSE IF Chance(70) THEN MaxOf(have \cup some) ELSE Rnd(have \cup some) } :
          /\ late' = late \o SetToSeq({ [p |-> p, v |-> v, deps |-> ds[v]] : v \in some })
          /\ retag' = IF tg = NoVersion THEN retag ELSE Append(retag, [p |-> p, t |-> "latest", v |-> tg])
  /\ UNCHANGED <<vers, tags, root, order, conc, edit>>

Edit ==
  /\ step = 43 /\ step' = 44
  /\ edit' = Rnd({"same", "same", "same", "drop", "change", "add", "kind"})
  /\ UNCHANGED <<vers, tags, root, order, conc, late, retag>>

Shuffled(i_) == [i \in 1..6 |-> Rnd(Names)]
(* only what can be got at all is asked for in edits *)
NewDep(U, i_) == LET p == Rnd(Names)
                     vs == { v \in VersionsOf(U, p) : ~ IsPre(v) }
                 IN [n |-> p, p |-> p, t |-> IF vs = {} THEN "star" ELSE Rnd({"caret", "exact", "gte", "tilde"}), k |-> "prod",
                     v |-> IF vs = {} THEN <<1,0,0,0>> ELSE Rnd(vs), w |-> <<1,0,0,0>>, g |-> ""]
Edited(U, r, how, i_) ==
  IF r = <<>> \/ how = "same" THEN r
  ELSE LET i == Rnd(DOMAIN r) IN
    CASE how = "drop"   -> SelectSeq(r, LAMBDA d : d.n # r[i].n)
      [] how = "change" -> LET nd == NewDep(U, 0) IN IF \E j \in DOMAIN r : j # i /\ r[j].n = nd.n THEN r ELSE [r EXCEPT ![i] = nd]
      [] how = "add"    -> LET nd == NewDep(U, 0) IN IF \E j \in DOMAIN r : r[j].n = nd.n THEN r ELSE Append(r, nd)
      [] how = "kind"   -> [r EXCEPT ![i].k = IF @ = "prod" THEN "dev" ELSE "prod"]

MoveTags(ts, new) == SelectSeq(ts, LAMBDA t : ~ \E j \in DOMAIN new : new[j].p = t.p /\ new[j].t = t.t) \o new

(* what the registry says about the bytes of each version: this or that hash, or several *)
Hashes(i_) == [i \in 1..60 |-> Rnd({"", "", "", "two", "three", "sha1", "sha256", "none"})]
Hashed(U, hs) == [U EXCEPT !.vers = [i \in DOMAIN @ |-> [p |-> @[i].p, v |-> @[i].v, deps |-> @[i].deps, hashes |-> hs[i]]]]

LFinish ==
  /\ step = 44 /\ step' = 45
  /\ \E U1 \in { Mended([vers |-> vers, tags |-> tags], step) } :
     \E r1 \in { MendAll(U1, root) } :
     \E U2 \in { Mended([vers |-> U1.vers \o late, tags |-> MoveTags(tags, retag)], step) } :
     \* what was published stays as it was
     \E U2b \in { [U2 EXCEPT !.vers = U1.vers \o SubSeq(U2.vers, Len(U1.vers) + 1, Len(U2.vers))] } :
     \E r2 \in { Edited(U1, r1, edit, step) } :
     \E hs \in { TLCEval(Hashes(step)) } :
     \E o2 \in { Shuffled(step) } : \E c2 \in { Rnd({1, 2, 3, 50}) } :
       PrintT("@@" \o ToJson([uni |-> Hashed(U1, hs), root |-> r1, order |-> order, conc |-> conc, edit |-> edit,
                              uni2 |-> Hashed(U2b, hs), root2 |-> r2, order2 |-> o2, conc2 |-> c2]))
  /\ UNCHANGED <<vers, tags, root, order, conc, late, retag, edit>>

LNext == Base \/ Later \/ Edit \/ LFinish
=============================================================================
