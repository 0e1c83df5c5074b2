------------------------------- MODULE MCAuth -------------------------------
(***************************************************************************)
(* A client that keeps credentials by a key made of a registry's URL, joins *)
(* package names to it, fetches metadata and tarballs in the name of the    *)
(* registry a package belongs to, and follows redirects: checked against    *)
(* what Auth says about every configuration of two scopes, three            *)
(* registries with their credentials, and every place for a tarball.        *)
(*                                                                         *)
(* Paths are spelled out in characters here, as the client sees them; hosts  *)
(* are pairs of a name and a port.                                         *)
(***************************************************************************)
EXTENDS Auth, IOUtils, TLC

Flag(n) == n \in DOMAIN IOEnv /\ IOEnv[n] = "1"

Hosts == { <<"h", 1>>, <<"h", 2>>, <<"g", 1>> }
\* a path as segments, and as it's spelled
Segs == { <<>>, <<"n">>, <<"nx">>, <<"n", "s">> }
Spell(p) == CASE p = <<>> -> <<"/">> [] p = <<"n">> -> <<"/", "n", "/">> [] p = <<"nx">> -> <<"/", "n", "x", "/">>
              [] p = <<"n", "s">> -> <<"/", "n", "/", "s", "/">>
\* Without the last slash
Bare(s) == IF Len(s) = 1 THEN s ELSE SubSeq(s, 1, Len(s) - 1)
StartsWith(s, t) == Len(s) >= Len(t) /\ SubSeq(s, 1, Len(t)) = t
\* Up to the last slash, which is what URLs are joined to
RECURSIVE Dir(_)
Dir(s) == IF s[Len(s)] = "/" THEN s ELSE Dir(SubSeq(s, 1, Len(s) - 1))

Places == [host : Hosts, path : Segs]
Small == Flag("MC_SMALL")
Regs == IF Small THEN { x \in Places : x.host[1] = "h" /\ x.path # <<"nx">> } ELSE Places

VARIABLES conf, slash, at, seen, step
vars == <<conf, slash, at, seen, step>>

Init == /\ \E d \in Regs, s \in Regs, c1 \in Regs, c2 \in Regs :
             /\ c1 # c2
             /\ conf = [default |-> d, scopes |-> << [scope |-> "s", at |-> s] >>, creds |-> << [at |-> c1], [at |-> c2] >>]
        /\ slash \in BOOLEAN /\ at \in Places /\ seen = {} /\ step = 0

\* How the client writes a registry's path
Written(reg) == LET s == Spell(reg.path) IN IF slash THEN s ELSE IF Flag("MC_NOSLASH") THEN Bare(s) ELSE s
Key(reg) == <<IF Flag("MC_HOSTONLY") THEN reg.host[1] ELSE reg.host, Spell(reg.path)>>
\* the credentials stored last for a key are the ones that are there
Stored(reg) == LET S == { i \in DOMAIN conf.creds : Key(conf.creds[i].at) = Key(reg) }
               IN IF S = {} THEN {} ELSE { CHOOSE i \in S : \A j \in S : j <= i }
Inside(u, reg) ==
  /\ IF Flag("MC_HOSTONLY") THEN u.host[1] = reg.host[1] ELSE u.host = reg.host
  /\ StartsWith(u.spelled, IF Flag("MC_PREFIX") THEN Bare(Spell(reg.path)) ELSE Written(reg))
Send(reg, u) == IF Inside(u, reg) THEN Stored(reg) ELSE {}

\* where a spelled path belongs
Seg(s) == IF \E p \in Segs : Spell(p) = s THEN CHOOSE p \in Segs : Spell(p) = s ELSE <<"?">>
Url(host, spelled) == [host |-> host, spelled |-> spelled, path |-> Seg(spelled)]

Meta(scope) ==
  LET reg == Registry(conf, scope)
      u == Url(reg.host, Dir(Written(reg)))
  IN seen' = seen \cup { [kind |-> "meta", reg |-> reg, url |-> u, sent |-> Send(reg, u)] }
Tar(scope) ==
  LET reg == Registry(conf, scope)
      u == Url(at.host, Spell(at.path))
      name == IF Flag("MC_DEFAULTREG") THEN conf.default ELSE reg
  IN seen' = seen \cup { [kind |-> "tar", reg |-> reg, url |-> u, sent |-> Send(name, u)] }
\* The registry sends us elsewhere: credentials don't come along
Hop(scope) ==
  LET reg == Registry(conf, scope)
      u == Url(at.host, Spell(at.path))
      from == Url(reg.host, Dir(Written(reg)))
      sent == IF from.host = u.host \/ Flag("MC_HOP") THEN Send(reg, from) ELSE {}
  IN from.host # u.host /\ seen' = seen \cup { [kind |-> "hop", reg |-> reg, url |-> u, sent |-> sent] }

Next == /\ step < 2 /\ step' = step + 1 /\ UNCHANGED <<conf, slash, at>>
        /\ \E scope \in {"", "s", "t"} : Meta(scope) \/ Tar(scope) \/ Hop(scope)

\* Nobody sees what's not for them, and nothing that's due is missing
Right == \A r \in seen : r.sent = Due(conf, r.reg, r.url)
\* Registries are asked at the place that's theirs
Asked == \A r \in seen : r.kind = "meta" => Same(r.url, r.reg)
=============================================================================
