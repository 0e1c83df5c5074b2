-------------------------------- MODULE View --------------------------------
(***************************************************************************)
(* What a specifier names, whether it's of a package in a registry, in a     *)
(* directory, or in a git repository, and what `oro view` then says of it.   *)
(*                                                                         *)
(* A repository: [commits, branches, tags, head], where commits are          *)
(* manifests, branches are [n, c] (name and index of a commit), tags are     *)
(* [n, v, c] (v is the version the tag stands for, NoVersion if it's none)   *)
(* and head is the name of a branch.                                         *)
(***************************************************************************)
EXTENDS Semver

Pointed(S, n) == { x.c : x \in { y \in Range(S) : y.n = n } }

(* A tag's version, alone or after a path ("rel/1.2.3"), as with npm.        *)
Fitting(R, d) == { t \in Range(R.tags) : t.v # NoVersion /\ (InRange(t.v, d) \/ (d.t = "exact" /\ t.v = d.v)) }

(* The commits a selector may mean: none if it's an error.                   *)
Named(R, sel) ==
  CASE sel.how = "none" -> Pointed(R.branches, R.head)
    [] sel.how = "rev"  -> IF Pointed(R.branches, sel.rev) # {} THEN Pointed(R.branches, sel.rev) ELSE Pointed(R.tags, sel.rev)
    [] sel.how = "sha"  -> IF sel.c \in DOMAIN R.commits THEN {sel.c} ELSE {}
    [] sel.how = "semver" ->
         LET fit == Fitting(R, sel.d) IN
         IF fit = {} THEN {} ELSE LET m == MaxOf({ t.v : t \in fit }) IN { t.c : t \in { u \in fit : u.v = m } }
    [] OTHER -> {}

(* Where it can be had from: a hosted repository has several sources, of     *)
(* which any will do; archives are only of what has a name.                  *)
Archived(sel) == sel.how \in {"rev", "sha"}
Reachable(spec) ==
  IF spec.via \notin {"short", "bare"} THEN spec.src.there
  ELSE spec.src.https \/ spec.src.ssh \/ (spec.src.tarball = "ok" /\ Archived(spec.sel))

(* What's said of it, for people.                                            *)
License(m) == IF m.lic = "" THEN "Proprietary" ELSE m.lic
=============================================================================
