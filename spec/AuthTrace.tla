----------------------------- MODULE AuthTrace -----------------------------
(***************************************************************************)
(* Checks the requests registries and other hosts saw: each carries exactly *)
(* the credentials of the registry it's made on behalf of, if it's within    *)
(* that registry, and none otherwise; and nothing else in it gives any away. *)
(***************************************************************************)
EXTENDS Auth, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad

Reg(x, q) == IF q.what \in {"meta", "tar"} THEN Registry(x, x.pkgs[q.p].scope) ELSE x.default
\* Where a package's tarball is
TarAt(x, p) == IF x.pkgs[p].own THEN Registry(x, x.pkgs[p].scope) ELSE x.pkgs[p].at

Request(x, i) ==
  LET q == x.seen[i]
      reg == Reg(x, q)
      got == { q.auth[j] : j \in DOMAIN q.auth }
      \* The path up to what's asked for
      u == [host |-> q.host, path |-> q.path]
      hopped == q.hop
      due == IF q.hop THEN {} ELSE Due(x, reg, u)
      asked == CASE q.what \in {"meta", "ping"} -> Same(u, reg) [] q.what = "tar" -> Same(u, TarAt(x, q.p)) [] OTHER -> FALSE
  IN (IF q.leak THEN { <<"leaked", q.what, q.host>> } ELSE {})
     \cup (IF Len(q.auth) > 1 THEN { <<"more than one", q.what>> } ELSE {})
     \cup (IF got # due THEN { <<"carries", q.what, q.host, q.path, got, due>> } ELSE {})
     \cup (IF ~ q.hop /\ ~ asked THEN { <<"asked at", q.what, q.host, q.path>> } ELSE {})

Op(x, i) ==
  LET o == x.ops[i]
      got(w, p) == \E j \in DOMAIN x.seen : x.seen[j].op = i /\ x.seen[j].what = w /\ (w = "ping" \/ x.seen[j].p = p)
  IN (IF o.outcome # "ok" THEN { <<i, o.op, o.outcome>> } ELSE {})
     \cup (IF o.op = "view" /\ ~ got("meta", o.p) THEN { <<i, "not asked for", o.p>> } ELSE {})
     \cup (IF o.op = "ping" /\ ~ got("ping", 0) THEN { <<i, "not pinged">> } ELSE {})
     \cup (IF o.op = "apply" /\ i = 1 THEN { <<i, "not fetched", p>> : p \in { p \in DOMAIN x.pkgs : ~ got("tar", p) } } ELSE {})

Problems(x) == UNION { Request(x, i) : i \in DOMAIN x.seen } \cup UNION { Op(x, i) : i \in DOMAIN x.ops }

Init == l = 1 /\ bad = 0
Check ==
  /\ l <= Len(Trace)
  /\ LET ps == Problems(Trace[l])
     IN /\ bad' = IF ps = {} THEN bad ELSE bad + 1
        /\ IF ps = {} THEN TRUE ELSE PrintT("@@" \o ToJson([line |-> l, problems |-> ps]))
  /\ l' = l + 1
Next == Check
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
