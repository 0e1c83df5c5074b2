------------------------------ MODULE Extract ------------------------------
(***************************************************************************)
(* What a package's tarball means: which files an installed package is made *)
(* of, whatever way they came (network, cache, copies, links), and which of *)
(* its entries can't be taken at their word.                                *)
(*                                                                         *)
(* A package is                                                            *)
(*   name, long    its name, and how its tarball spells long names          *)
(*   ents          entries in order: top (the first component of the name),  *)
(*                 path (the rest, as components), kind, cont (0 stands for  *)
(*                 the package's manifest), mode                             *)
(*   bins, form    what its manifest declares to be executable, and how      *)
(*   scripts       its lifecycle scripts                                     *)
(*   integ         what the registry says about the integrity of the tarball *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt

Tame(seg) == seg \notin {"..", ".", ""}
\* An entry that isn't to be taken literally
Wild(e) == e.top \in {"..", ""} \/ e.path = <<>> \/ \E i \in DOMAIN e.path : ~ Tame(e.path[i])
Files(T) == { i \in DOMAIN T.ents : T.ents[i].kind = "file" }
Plain(T) == { i \in Files(T) : ~ Wild(T.ents[i]) }
Last_(T, i) == \A j \in Plain(T) : T.ents[j].path = T.ents[i].path => j <= i

WildBin(b) == \E i \in DOMAIN b.path : b.path[i] \in {"..", ""}
IsBin(T, path) ==
  \/ T.form # "dir" /\ \E i \in DOMAIN T.bins : SelectSeq(T.bins[i].path, LAMBDA g : g # ".") = path
  \/ T.form = "dir" /\ T.bins # <<>> /\ Len(path) > 1 /\ path[1] = "bin"

Executable(m) == m \in {755, 775, 711, 555}
\* ...by anyone
Readable(m) == m \notin {600, 711}

\* Exactly these files, wherever they come from
Expected(T) == { [path |-> T.ents[i].path, cont |-> T.ents[i].cont,
                  exec |-> Executable(T.ents[i].mode) \/ IsBin(T, T.ents[i].path), read |-> Readable(T.ents[i].mode)] : i \in { i \in Plain(T) : Last_(T, i) } }

\* A file where another one needs a directory
Clash(T) == \E i, j \in Plain(T) : Len(T.ents[i].path) < Len(T.ents[j].path)
                                     /\ SubSeq(T.ents[j].path, 1, Len(T.ents[i].path)) = T.ents[i].path

Hostile(T) == Clash(T) \/ (\E i \in DOMAIN T.ents : Wild(T.ents[i])) \/ (\E i \in DOMAIN T.bins : WildBin(T.bins[i]))
                \/ ~ T.named
HasScripts(T) == T.scripts # <<>>
Checked(T) == T.integ # "none"

\* What the content of the files of an installed package may be at all
Contents(T) == { T.ents[i].cont : i \in Files(T) }
=============================================================================
