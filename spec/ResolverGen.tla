---------------------------- MODULE ResolverGen ----------------------------
(***************************************************************************)
(* Random registry universes, projects and answer orders (run with         *)
(* -simulate): every behaviour builds one and prints it as JSON.           *)
(***************************************************************************)
EXTENDS Tree, Json, IOUtils

Rnd(S) == RandomElement(S)
Chance(n) == RandomElement(1..100) <= n

Pool == << <<1,0,0,0>>, <<1,1,0,0>>, <<1,2,0,1>>, <<2,0,0,0>>, <<2,1,0,0>> >>
Names == {"a", "b", "c", "d", "@s/e", "f"}
AliasNames == {"a", "b", "c", "x", "@t/y"}
Order == << "a", "b", "c", "d", "@s/e", "f" >>

RandV(i) == Pool[Rnd(1..5)]   \* takes an argument so that TLC does not evaluate it once for all
Kinds == <<"caret", "caret", "caret", "tilde", "exact", "gte", "lt", "x", "or", "star", "hyphen", "lte", "tag", "none">>
DepBody(n, p, t, k, v, w) == [n |-> n, p |-> p, t |-> t, k |-> k, v |-> v,
                              w |-> w, g |-> IF t = "tag" THEN "latest" ELSE ""]
(* mode "plain" uses no tag/none requirements, which can never be shared *)
RandKind(mode) == IF mode = "plain" THEN Kinds[Rnd(1..12)] ELSE Kinds[Rnd(1..14)]
RandDep(mode, n_) ==
  LET p == Rnd(Names)
      al == Chance(12)
      v == RandV(n_)
      w == RandV(n_)
  IN DepBody(IF al THEN Rnd(AliasNames) ELSE p, p, RandKind(mode),
             IF Chance(12) THEN "opt" ELSE "prod", v, w)

RECURSIVE RandDeps(_, _)
RandDeps(n, mode) ==
  IF n = 0 THEN <<>>
  ELSE LET rest == RandDeps(n - 1, mode)
           d == RandDep(mode, n)
       IN IF \E i \in DOMAIN rest : rest[i].n = d.n THEN rest ELSE Append(rest, d)

Fix(ds) == [i \in DOMAIN ds |->
              IF ds[i].t = "hyphen" /\ VLt(ds[i].w, ds[i].v) THEN [ds[i] EXCEPT !.v = ds[i].w, !.w = ds[i].v] ELSE ds[i]]

VARIABLES vers, tags, root, order, conc, step
gvars == <<vers, tags, root, order, conc, step>>

Mode == IF "GEN_MODE" \in DOMAIN IOEnv THEN IOEnv.GEN_MODE ELSE "plain"

GInit == vers = <<>> /\ tags = <<>> /\ root = <<>> /\ order = <<>> /\ conc = 1 /\ step = 0

(* publish (or not) version ((step-1) % 5)+1 of package ((step-1) \div 5)+1 *)
Publish ==
  /\ step < 30
  /\ step' = step + 1
  /\ LET p == Order[(step \div 5) + 1]
         v == Pool[(step % 5) + 1]
     IN vers' = IF Chance(75)
                THEN Append(vers, [p |-> p, v |-> v, deps |-> Fix(RandDeps(Rnd({0,0,1,1,2,2,3}), Mode))])
                ELSE vers
  /\ UNCHANGED <<tags, root, order, conc>>

(* set the "latest" tag of each package *)
TagIt ==
  /\ step >= 30 /\ step < 36
  /\ step' = step + 1
  /\ LET p == Order[step - 29]
         vs == { vers[i].v : i \in { j \in DOMAIN vers : vers[j].p = p } }
     IN tags' = IF vs = {} \/ Chance(5) THEN tags
                ELSE IF Chance(60) THEN Append(tags, [p |-> p, t |-> "latest", v |-> MaxOf(vs)])
                ELSE Append(tags, [p |-> p, t |-> "latest", v |-> Rnd(vs)])
  /\ UNCHANGED <<vers, root, order, conc>>

Project ==
  /\ step = 36 /\ step' = 37
  /\ root' = LET ds == Fix(RandDeps(Rnd({1,2,3,4,5}), Mode))
             IN [i \in DOMAIN ds |-> IF Chance(15) THEN [ds[i] EXCEPT !.k = "dev"] ELSE ds[i]]
  /\ order' = [i \in 1..6 |-> Rnd(Names)]
  /\ conc' = Rnd({1, 2, 3, 50})
  /\ UNCHANGED <<vers, tags>>

(* Most requirements that nothing published meets are replaced; a few stay. *)
Mend(U, d) ==
  IF Select(U, d, DefTag) # NoVersion THEN d
  ELSE LET vs == { v \in VersionsOf(U, d.p) : ~ IsPre(v) }
       IN IF vs = {} \/ ~ Chance(98) THEN d
          ELSE [d EXCEPT !.t = "caret", !.v = Rnd(vs)]
MendAll(U, ds) == [i \in DOMAIN ds |-> Mend(U, ds[i])]
Mended(U, i_) == [U EXCEPT !.vers = [i \in DOMAIN U.vers |-> [U.vers[i] EXCEPT !.deps = MendAll(U, @)]]]

Finish ==
  /\ step = 37 /\ step' = 38
  /\ LET U0 == [vers |-> vers, tags |-> tags]
         sc == [uni |-> Mended(U0, step), root |-> MendAll(U0, root),
                order |-> order, conc |-> conc, gated |-> TRUE]
     IN PrintT("@@" \o ToJson(sc))
  /\ UNCHANGED <<vers, tags, root, order, conc>>

GNext == Publish \/ TagIt \/ Project \/ Finish
=============================================================================
