-------------------------------- MODULE Creds --------------------------------
(***************************************************************************)
(* The credentials there are in a config file, and what's made of them.      *)
(*                                                                         *)
(* A config file holds                                                      *)
(*   creds    [at |-> place, cred |-> which credentials]: what there is for   *)
(*            the registry at that place                                     *)
(*   scopes   [scope |-> name, at |-> place]                                 *)
(* and anything else, which isn't ours to touch.                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Same(a, b) == a.host = b.host /\ a.path = b.path

Stored(F, at, cred) == [F EXCEPT !.creds = { e \in @ : ~ Same(e.at, at) } \cup { [at |-> at, cred |-> cred] }]
Mapped(F, scope, at) == IF scope = "" THEN F ELSE [F EXCEPT !.scopes = { e \in @ : e.scope # scope } \cup { [scope |-> scope, at |-> at] }]
Cleared(F, at) == [F EXCEPT !.creds = { e \in @ : ~ Same(e.at, at) }]

Login(F, at, cred, scope) == Mapped(Stored(F, at, cred), scope, at)
Found(F, at) == { e.cred : e \in { e \in F.creds : Same(e.at, at) } }
\* The registry of a scope
Home(F, scope, default) == LET S == { e \in F.scopes : e.scope = scope } IN IF S = {} THEN default ELSE (CHOOSE e \in S : TRUE).at
=============================================================================
