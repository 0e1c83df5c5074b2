-------------------------------- MODULE MCView --------------------------------
(***************************************************************************)
(* Getting a git package: its archive, else a clone over https, else one     *)
(* over ssh, of which each may be missing, and the archive may be cut short.  *)
(* What's got is what was named, and it's got if any of the sources has it.  *)
(***************************************************************************)
EXTENDS View, IOUtils, TLC

Flag(f) == f \in DOMAIN IOEnv
V(a, b, c) == <<a, b, c, 0>>
D(t, v) == [n |-> "", p |-> "x", t |-> t, v |-> v, w |-> v, g |-> ""]
Commits == 1..3
TagPool == { [n |-> "1.0.0", v |-> V(1,0,0)], [n |-> "v1.1.0", v |-> V(1,1,0)], [n |-> "1.1.0", v |-> V(1,1,0)],
             [n |-> "rel/1.2.0", v |-> V(1,2,0)], [n |-> "2.0.0-beta.1", v |-> <<2,0,0,1>>], [n |-> "stable", v |-> NoVersion] }
Sels == { [how |-> "none", rev |-> "", c |-> 0, d |-> D("star", V(0,0,0))] }
   \cup { [how |-> "rev", rev |-> r, c |-> 0, d |-> D("star", V(0,0,0))] : r \in {"main", "dev", "stable", "1.0.0", "v1.1.0", "gone", "package.json"} }
   \cup { [how |-> "sha", rev |-> "", c |-> c, d |-> D("star", V(0,0,0))] : c \in {2, 9} }
   \cup { [how |-> "semver", rev |-> "", c |-> 0, d |-> d] : d \in { D("caret", V(1,0,0)), D("exact", V(1,1,0)), D("gte", V(2,0,0)), D("star", V(0,0,0)), D("tilde", V(1,2,0)) } }
Srcs == [tarball : {"ok", "gone", "cut"}, https : BOOLEAN, ssh : BOOLEAN, there : {TRUE}]

VARIABLES repo, sel, src, pc, dir
vars == <<repo, sel, src, pc, dir>>
\* dir: 0 nothing, -1 something broken, else the commit that's there
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})

Init == /\ \E T \in SUBSET TagPool : \E f \in [T -> {1, 3}] : \E m \in {2, 3} :
             repo = [commits |-> <<1, 2, 3>>, head |-> "main", branches |-> << [n |-> "main", c |-> m], [n |-> "dev", c |-> 1] >>,
                     tags |-> SeqOf({ [n |-> t.n, v |-> t.v, c |-> f[t]] : t \in T })]
        /\ sel \in Sels /\ src \in Srcs /\ pc = "tarball" /\ dir = 0

Spec0 == [via |-> "short", src |-> src, sel |-> sel]
Go(p, d) == pc' = p /\ dir' = d /\ UNCHANGED <<repo, sel, src>>
Afresh(d) == IF Flag("MC_LEFTOVERS") THEN d ELSE 0

Tarball == /\ pc = "tarball"
           /\ IF ~ Archived(sel) THEN Go(IF Flag("MC_PANIC") THEN "panic" ELSE "https", dir)
              ELSE IF src.tarball = "ok" /\ Named(repo, sel) # {} THEN \E c \in Named(repo, sel) : Go("done", c)
              ELSE IF src.tarball = "cut" THEN Go("https", Afresh(-1))
              ELSE Go("https", dir)
Clone(how, next) ==
  /\ pc = how
  /\ IF ~ src[how] \/ dir # 0 THEN Go(next, dir)
     ELSE \E c \in Pointed(repo.branches, repo.head) : Go(how \o " checkout", c)
\* What's checked out: a name, or the version that fits best by the name of its tag
Refs == IF sel.how # "semver" THEN Named(repo, sel)
        ELSE LET fit == Fitting(repo, sel.d)
                 best == { t \in fit : \A u \in fit : VLe(u.v, t.v) }
                 bare == { t \in best : t.n \in {"1.0.0", "1.1.0", "2.0.0-beta.1"} }
             IN { t.c : t \in IF Flag("MC_BARETAG") THEN bare ELSE best }
Checkout(how, next) ==
  /\ pc = how \o " checkout"
  /\ IF Flag("MC_FILE") /\ sel.rev = "package.json" THEN Go("done", dir)
     ELSE IF Refs = {} THEN Go(next, Afresh(dir))
     ELSE \E c \in Refs : Go("done", c)

Next == Tarball \/ Clone("https", "ssh") \/ Checkout("https", "ssh") \/ Clone("ssh", "failed") \/ Checkout("ssh", "failed")
Right == pc = "done" => dir \in Named(repo, sel)
Got == pc = "failed" => Named(repo, sel) = {} \/ ~ Reachable(Spec0)
Sound == Right /\ Got /\ pc # "panic"
=============================================================================
