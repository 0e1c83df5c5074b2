------------------------------- MODULE Install -------------------------------
(***************************************************************************)
(* What node_modules must look like for a resolved tree, in either layout. *)
(* A disk is a record                                                      *)
(*   places : the directories that hold a package, each with               *)
(*            id, at (its location, hoisted), instore, p, v, why (what is  *)
(*            wrong with its files, "" if nothing), built (what its        *)
(*            scripts left), links and bins (entries of its own            *)
(*            node_modules and node_modules/.bin)                          *)
(*   links, bins, stray, store : the same of the project's node_modules    *)
(***************************************************************************)
EXTENDS Tree

TreeOf(t) == { [path |-> t[i].path, p |-> t[i].p, v |-> t[i].v] : i \in DOMAIN t }

Places(D) == Range(D.places)
Root == "root"
Owner(D, id) == IF id = Root THEN [links |-> D.links, bins |-> D.bins]
                ELSE CHOOSE x \in Places(D) : x.id = id
Place(D, id) == CHOOSE x \in Places(D) : x.id = id
HasPlace(D, id) == \E x \in Places(D) : x.id = id
Entry(D, id, n) == { e \in Range(Owner(D, id).links) : e.n = n }

(* what somebody at a location of the tree depends on *)
DepsAt(U, root, T, path) == IF path = <<>> THEN RootDeps(root)
                            ELSE DepsOf(U, At(T, path).p, At(T, path).v)
EdgesAt(U, root, T, path) ==
  { e \in { <<d.n, Lookup(T, path, d.n)>> : d \in DepsAt(U, root, T, path) } : e[2] \in Paths(T) }

(* ---- hoisted --------------------------------------------------------- *)
HoistedId(D, path) == (CHOOSE x \in Places(D) : x.at = path /\ ~ x.instore).id
HoistedWrong(D, T) ==
  { <<"missing", x.path>> : x \in { x \in T : ~ \E y \in Places(D) : y.at = x.path /\ ~ y.instore } }
  \cup { <<"wrong", x.path, x.v>> :
           x \in { x \in T : \E y \in Places(D) : y.at = x.path /\ ~ y.instore /\ <<y.p, y.v, y.why>> # <<x.p, x.v, "">> } }
  \cup { <<"leftover", y.id>> : y \in { y \in Places(D) : y.instore \/ y.at \notin Paths(T) } }
  \cup { <<"stray", s>> : s \in Range(D.stray) }
  \cup { <<"stray link", e.n>> : e \in { e \in Range(D.links) : e.kind # "dir" } }
  \cup (IF D.store THEN { <<"store">> } ELSE {})

(* ---- isolated -------------------------------------------------------- *)
(* <<location in the tree, place on disk>> pairs found by following links   *)
LinkedFrom(U, root, T, D, pr) ==
  UNION { { <<e[2], l.to>> : l \in { l \in Entry(D, pr[2], e[1]) : HasPlace(D, l.to) } } : e \in EdgesAt(U, root, T, pr[1]) }
RECURSIVE Walked(_, _, _, _, _, _)
Walked(U, root, T, D, done, todo) ==
  IF todo = {} THEN done
  ELSE Walked(U, root, T, D, done \cup todo,
              UNION { LinkedFrom(U, root, T, D, pr) : pr \in todo } \ (done \cup todo))
Pairs(U, root, T, D) == Walked(U, root, T, D, {}, { <<<<>>, Root>> })

IsolatedWrong(U, root, T, D) ==
  LET prs == Pairs(U, root, T, D)
      real == prs \ { <<<<>>, Root>> }
      dead(pr, e) == ~ \E l \in Entry(D, pr[2], e[1]) : HasPlace(D, l.to) /\ Place(D, l.to).instore
      extra(pr, n) == ~ \E e \in EdgesAt(U, root, T, pr[1]) : e[1] = n
  IN UNION { { <<"broken link", pr[1], e[1]>> : e \in { e \in EdgesAt(U, root, T, pr[1]) : dead(pr, e) } } : pr \in prs }
     \cup { <<"wrong", pr[1], pr[2]>> :
         pr \in { pr \in real : LET y == Place(D, pr[2]) IN <<y.p, y.v, y.why>> # <<At(T, pr[1]).p, At(T, pr[1]).v, "">> } }
     \cup { <<"leftover", y.id>> : y \in { y \in Places(D) : y.instore /\ ~ \E pr \in real : pr[2] = y.id } }
     \cup UNION { { <<"extra link", pr[2], l.n>> :
                      l \in { l \in Range(Owner(D, pr[2]).links) : l.kind = "link" /\ extra(pr, l.n) } } : pr \in prs }

Wrong(mode, U, root, T, D) ==
  IF mode = "hoisted" THEN HoistedWrong(D, T) ELSE IsolatedWrong(U, root, T, D)

(* ---- executables ------------------------------------------------------ *)
BinsOf(U, p, v) == LET xs == { x \in Range(U.vers) : x.p = p /\ x.v = v }
                   IN IF xs = {} THEN {} ELSE Range((CHOOSE x \in xs : TRUE).bins)
(* how a file is named in declarations: a leading ./ means nothing *)
Plain(f) == CASE f = "./bin/b.js" -> "bin/b.js" [] f = "./e.js" -> "e.js" [] OTHER -> f

(* <<owner place, name, target place, file>>: the entries there must be     *)
BinNeeds(mode, U, root, T, D) ==
  IF mode = "hoisted"
  THEN UNION { { <<IF Len(x.path) = 1 THEN Root ELSE HoistedId(D, Parent(x.path)), b[1], HoistedId(D, x.path), Plain(b[2])>>
                   : b \in BinsOf(U, x.p, x.v) } : x \in T }
  ELSE UNION { UNION { { <<pr[2], b[1], l.to, Plain(b[2])>> :
                           b \in BinsOf(U, At(T, e[2]).p, At(T, e[2]).v), l \in Entry(D, pr[2], e[1]) }
                       : e \in EdgesAt(U, root, T, pr[1]) } : pr \in Pairs(U, root, T, D) }

BinHave(D, id) == { <<b.n, b.to, b.file, b.exec>> : b \in Range(Owner(D, id).bins) }
Clashing(needs, n) == \E m \in needs : m[1] = n[1] /\ m[2] = n[2] /\ m # n
BinsWrong(mode, U, root, T, D) ==
  LET needs == BinNeeds(mode, U, root, T, D)
  IN { <<"bin", n[1], n[2]>> : n \in { n \in needs : ~ Clashing(needs, n) /\ <<n[2], n[3], n[4], TRUE>> \notin BinHave(D, n[1]) } }
     \cup { <<"bin", n[1], n[2]>> : n \in { n \in needs : Clashing(needs, n) /\
               ~ \E m \in needs : m[1] = n[1] /\ m[2] = n[2] /\ <<m[2], m[3], m[4], TRUE>> \in BinHave(D, n[1]) } }
     \cup UNION { { <<"dead bin", id, b[1], b[2]>> : b \in { b \in BinHave(D, id) : ~ HasPlace(D, b[2]) } }
                  : id \in { Root } \cup { y.id : y \in Places(D) } }

(* ---- what scripts leave ------------------------------------------------ *)
ScriptsOf(U, p, v) == LET xs == { x \in Range(U.vers) : x.p = p /\ x.v = v }
                      IN IF xs = {} THEN {} ELSE Range((CHOOSE x \in xs : TRUE).scripts)
Unbuilt(U, D) == { <<"built", y.id>> : y \in { y \in Places(D) : y.why = "" /\ Range(y.built) # ScriptsOf(U, y.p, y.v) } }
=============================================================================
