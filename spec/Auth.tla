-------------------------------- MODULE Auth --------------------------------
(***************************************************************************)
(* Who gets to see which credentials.                                       *)
(*                                                                         *)
(* A place is a host (which stands for a host name and a port) and a path,  *)
(* a sequence of segments. A registry is everything below some place. The   *)
(* configuration is                                                        *)
(*   default   the place of the default registry                            *)
(*   scopes    the places of the registries of some scopes                  *)
(*   creds     the places of the registries there are credentials for       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt

Within(u, reg) == u.host = reg.host /\ Len(u.path) >= Len(reg.path) /\ SubSeq(u.path, 1, Len(reg.path)) = reg.path

Scoped(C, scope) == { i \in DOMAIN C.scopes : C.scopes[i].scope = scope }
\* The registry a package belongs to
Registry(C, scope) == LET S == Scoped(C, scope) IN IF scope = "" \/ S = {} THEN C.default ELSE C.scopes[CHOOSE i \in S : TRUE].at

Same(a, b) == a.host = b.host /\ a.path = b.path
\* What there is for a registry: the number of its credentials
CredOf(C, reg) == { i \in DOMAIN C.creds : Same(C.creds[i].at, reg) }

\* What a request on behalf of a registry has to carry
Due(C, reg, url) == IF Within(url, reg) THEN CredOf(C, reg) ELSE {}
=============================================================================
