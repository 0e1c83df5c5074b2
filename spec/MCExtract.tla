----------------------------- MODULE MCExtract -----------------------------
(***************************************************************************)
(* The cache: content shared by all packages, an index entry per package    *)
(* that lists its content, and installed packages whose files may be the    *)
(* cache's own (hard links). Files are modelled as inodes, so that what's   *)
(* done to one name shows under the others.                                 *)
(*                                                                         *)
(* Packages, with contents c and whether they're executable there:          *)
(*   p  c1, c2              q  c1 (executable)        s  c1, c2, has scripts  *)
(* All interleavings of installing with any mode while the registry serves   *)
(* the right or the wrong bytes, damage to the cache, and edits.            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, IOUtils, TLC

Flag(n) == n \in DOMAIN IOEnv /\ IOEnv[n] = "1"
Small == Flag("MC_SMALL")
MaxInodes == IF Small THEN 7 ELSE 9
MaxInst == IF Small THEN 2 ELSE 3

Pkgs == {"p", "q", "s"}
Uses(k) == IF k = "q" THEN {"c1"} ELSE {"c1", "c2"}
Exec(k, c) == k = "q"
Scripts(k) == k = "s"

VARIABLES ino, cache, idx, inst, ok, last
vars == <<ino, cache, idx, inst, ok, last>>

Init == /\ ino = <<>> /\ cache = [c \in {"c1", "c2"} |-> 0] /\ idx = [k \in Pkgs |-> "none"] /\ inst = <<>>
        /\ ok = TRUE /\ last = 0

\* May a file be the cache's own?
Links(k, c, mode) == mode = "link" /\ (~ Exec(k, c) \/ Flag("MC_MODES")) /\ (~ Scripts(k) \/ Flag("MC_SHARE"))

\* Files of a package from what's in the cache: one at a time
RECURSIVE Place(_, _, _, _, _, _)
Place(cs, k, mode, is, ca, fs) ==
  IF cs = {} THEN [ino |-> is, files |-> fs]
  ELSE LET c == CHOOSE c \in cs : TRUE
       IN IF Links(k, c, mode)
          THEN Place(cs \ {c}, k, mode, [is EXCEPT ![ca[c]].exec = Exec(k, c)], ca, [fs EXCEPT ![c] = ca[c]])
          ELSE Place(cs \ {c}, k, mode, Append(is, [val |-> is[ca[c]].val, exec |-> Exec(k, c)]), ca, [fs EXCEPT ![c] = Len(is) + 1])

RECURSIVE Store(_, _, _, _)
Store(cs, val, is, ca) ==
  IF cs = {} THEN [ino |-> is, cache |-> ca]
  ELSE LET c == CHOOSE c \in cs : TRUE
       IN Store(cs \ {c}, val, Append(is, [val |-> val, exec |-> FALSE]), [ca EXCEPT ![c] = Len(is) + 1])

NoFiles == [c \in {"c1", "c2"} |-> 0]
Intact(k) == \A c \in Uses(k) : cache[c] # 0 /\ (Flag("MC_UNVERIFIED") \/ ino[cache[c]].val = "right")

Install(k, mode, served) ==
  /\ Len(inst) < MaxInst
  /\ LET hit == idx[k] = "good" /\ Intact(k)
         \* what a broken entry listed is dropped, and comes from the registry again
         dropped == IF idx[k] = "good" /\ ~ hit THEN [c \in {"c1", "c2"} |-> IF c \in Uses(k) THEN 0 ELSE cache[c]] ELSE cache
         accepted == served = "right" \/ Flag("MC_UNCHECKED")
     IN IF hit
        THEN LET r == Place(Uses(k), k, mode, ino, cache, NoFiles)
             IN /\ ino' = r.ino /\ inst' = Append(inst, [k |-> k, files |-> r.files]) /\ ok' = TRUE /\ last' = Len(inst) + 1
                /\ UNCHANGED <<cache, idx>>
        ELSE IF accepted
        THEN LET st == Store(Uses(k), served, ino, dropped)
                 r == Place(Uses(k), k, mode, st.ino, st.cache, NoFiles)
             IN /\ ino' = r.ino /\ cache' = st.cache /\ idx' = [idx EXCEPT ![k] = "good"] /\ ok' = TRUE
                /\ inst' = Append(inst, [k |-> k, files |-> r.files]) /\ last' = Len(inst) + 1
        ELSE /\ cache' = dropped /\ idx' = [idx EXCEPT ![k] = "none"] /\ ok' = FALSE /\ last' = 0 /\ UNCHANGED <<ino, inst>>

Damage(c) ==
  /\ cache[c] # 0 /\ last' = 0 /\ UNCHANGED <<idx, inst, ok>>
  /\ \/ ino' = [ino EXCEPT ![cache[c]].val = "wrong"] /\ UNCHANGED cache
     \/ cache' = [cache EXCEPT ![c] = 0] /\ UNCHANGED ino
Lose(k) == idx[k] # "none" /\ idx' = [idx EXCEPT ![k] = "broken"] /\ last' = 0 /\ UNCHANGED <<ino, cache, inst, ok>>
Edit(i, c) ==
  /\ inst[i].files[c] # 0 /\ ino' = [ino EXCEPT ![inst[i].files[c]].val = "wrong"] /\ last' = 0 /\ UNCHANGED <<cache, idx, inst, ok>>

Next == /\ Len(ino) <= MaxInodes
        /\ \/ \E k \in Pkgs, m \in {"copy", "link"}, sv \in {"right", "wrong"} : Install(k, m, sv)
           \/ \E c \in {"c1", "c2"} : Damage(c)
           \/ \E k \in Pkgs : Lose(k)
           \/ \E i \in DOMAIN inst, c \in {"c1", "c2"} : Edit(i, c)

\* What was just installed is right, wherever it came from
Right == last # 0 => \A c \in Uses(inst[last].k) : ino[inst[last].files[c]].val = "right"
\* Files keep the permissions they were installed with, whatever is installed later
Modes == \A i \in DOMAIN inst : \A c \in Uses(inst[i].k) : ino[inst[i].files[c]].exec = Exec(inst[i].k, c)
\* Files of packages with scripts are nobody else's
Apart == \A i \in DOMAIN inst : Scripts(inst[i].k) =>
           \A c \in Uses(inst[i].k) :
              /\ \A d \in {"c1", "c2"} : cache[d] # inst[i].files[c]
              /\ \A j \in DOMAIN inst \ {i} : \A d \in {"c1", "c2"} : inst[j].files[d] # inst[i].files[c]
=============================================================================
