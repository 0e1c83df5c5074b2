------------------------------- MODULE NpmGen -------------------------------
(***************************************************************************)
(* Projects that only have an npm lockfile.  The lockfile describes some   *)
(* right tree (random admissible versions and locations, not the ones      *)
(* orogene would choose) and may then have fallen behind the manifest.     *)
(***************************************************************************)
EXTENDS LockGen

VARIABLES T, stuck
nvars == <<lvars, T, stuck>>

U1 == [vers |-> vers, tags |-> tags]
NInit == LInit /\ T = {} /\ stuck = 0

Open == { nd \in Needs(U1, root, T) :
            LET q == Lookup(T, nd[1], nd[2].n)
            IN q = Missing \/ ~ Meets(U1, At(T, q).p, At(T, q).v, nd[2], DefTag) }
Cands(d) == { v \in VersionsOf(U1, d.p) : Meets(U1, d.p, v, d, DefTag) }
OwnDeps(t) == IF t = <<>> THEN RootDeps(root) ELSE DepsOf(U1, At(T, t).p, At(T, t).v)
(* may (p, v) be put at level k above `from`, as far as everything else goes? *)
Allowed(from, d, v, k) ==
  LET t == Prefix(from, k)
      T2 == T \cup {[path |-> Append(t, d.n), p |-> d.p, v |-> v]}
  IN /\ Append(t, d.n) \notin Paths(T)
     /\ \A e \in OwnDeps(t) : e.n = d.n => Meets(U1, d.p, v, e, DefTag)
     /\ Lookup(T2, from, d.n) = Append(t, d.n)
     /\ \A nd \in Needs(U1, root, T) \ Open :
          LET q == Lookup(T2, nd[1], nd[2].n) IN Meets(U1, At(T2, q).p, At(T2, q).v, nd[2], DefTag)

Resolved(r) == \A d \in RootDeps(r) : Select(U1, d, DefTag) # NoVersion

NBase == (Publish \/ TagIt) /\ UNCHANGED <<late, retag, edit, T, stuck>>
NMend ==
  /\ step = 36 /\ step' = 37
  /\ \E U \in { Mended(U1, step) } :
     \E r \in { LET ds == Fix(RandDeps(Rnd({1,2,3,4,5}), Mode)) IN [i \in DOMAIN ds |-> IF Chance(15) THEN [ds[i] EXCEPT !.k = "dev"] ELSE ds[i]] } :
       vers' = U.vers /\ root' = MendAll(U, r)
  /\ order' = [i \in 1..6 |-> Rnd(Names)] /\ conc' = Rnd({1, 2, 3, 50})
  /\ UNCHANGED <<tags, late, retag, edit, T, stuck>>

Grow ==
  /\ step = 37 /\ Open # {} /\ Cardinality(T) < 16 /\ stuck < 3
  /\ \E nd \in { Rnd(Open) } :
       LET vs == Cands(nd[2]) IN
       IF vs = {} THEN stuck' = 9 /\ UNCHANGED T
       ELSE \E v \in { IF Chance(50) THEN Rnd(vs) ELSE MaxOf(vs) } :
            LET ks == { k \in 0..Len(nd[1]) : Allowed(nd[1], nd[2], v, k) } IN
            IF ks = {} THEN stuck' = stuck + 1 /\ UNCHANGED T
            ELSE \E k \in { IF Chance(60) THEN CHOOSE x \in ks : \A y \in ks : x <= y ELSE Rnd(ks) } :
                 /\ T' = T \cup {[path |-> Append(Prefix(nd[1], k), nd[2].n), p |-> nd[2].p, v |-> v]}
                 /\ UNCHANGED stuck
  /\ UNCHANGED <<lvars>>

NLater == (step = 37 => Open = {}) /\ Later /\ UNCHANGED <<T, stuck>>

NFinish ==
  /\ step = 43 /\ step' = 45
  /\ \E U2 \in { Mended([vers |-> vers \o late, tags |-> MoveTags(tags, retag)], step) } :
     \E U2b \in { [U2 EXCEPT !.vers = vers \o SubSeq(U2.vers, Len(vers) + 1, Len(U2.vers))] } :
     \E how \in { Rnd({"none1", "none2", "none3", "none4", "ghost", "drop", "stale", "edit"}) } :
     \E x \in { IF T = {} THEN [path |-> <<>>, p |-> "", v |-> NoVersion] ELSE Rnd(T) } :
     \E w \in { IF T = {} THEN NoVersion ELSE Rnd(VersionsOf(U1, x.p)) } :
     \E r2 \in { IF how = "edit" THEN Edited(U1, root, Rnd({"drop", "change", "add"}), step) ELSE root } :
     \E gp \in { Rnd(Names) } :
     LET L == CASE how = "drop"  -> T \ {x}
                [] how = "stale" /\ T # {} -> (T \ {x}) \cup {[x EXCEPT !.v = w]}
                [] how = "ghost" /\ VersionsOf(U1, gp) # {} ->
                     T \cup {[path |-> <<"zz">>, p |-> gp, v |-> MaxOf(VersionsOf(U1, gp))]}
                [] OTHER -> T
     IN PrintT("@@" \o ToJson([uni |-> U2b, root |-> root, root2 |-> r2, order |-> order, conc |-> conc,
                               lock |-> SetToSeq(L), right |-> SetToSeq(T), how |-> how, oldtags |-> tags,
                               file |-> Rnd({"package-lock.json", "npm-shrinkwrap.json"}),
                               noresolved |-> Chance(8), noint |-> Chance(15)]))
  /\ UNCHANGED <<vers, tags, root, order, conc, late, retag, edit, T, stuck>>

NNext == NBase \/ NMend \/ Grow \/ NLater \/ NFinish
=============================================================================
