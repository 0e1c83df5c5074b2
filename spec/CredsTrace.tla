----------------------------- MODULE CredsTrace -----------------------------
(***************************************************************************)
(* Checks what's in the config file after each operation, and what requests  *)
(* carry.                                                                   *)
(***************************************************************************)
EXTENDS Creds, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad

\* The credentials found in a file are numbered: those there to begin with first, then those of each operation
First(x) == [creds |-> { [at |-> x.creds[i].at, cred |-> i] : i \in DOMAIN x.creds },
             scopes |-> { [scope |-> x.scopes[i].scope, at |-> x.scopes[i].at] : i \in DOMAIN x.scopes }]
Apply(x, F, i) ==
  LET o == x.ops[i]
  IN CASE o.op = "login" -> Login(F, o.at, Len(x.creds) + i, o.scope)
       [] o.op = "logout" -> Cleared(F, o.at)
       [] OTHER -> F
RECURSIVE After(_, _)
After(x, i) == IF i = 0 THEN First(x) ELSE Apply(x, After(x, i - 1), i)

If(c, s) == IF c THEN { ToString(s) } ELSE {}
IsToken(x, c) == IF c <= Len(x.creds) THEN x.creds[c].kind = "token" ELSE x.ops[c - Len(x.creds)].kind = "token"

Step(x, i) ==
  LET o == x.ops[i]
      d == o.did
      before == After(x, i - 1)
      now == After(x, i)
      creds == { [at |-> d.creds[j].at, cred |-> d.creds[j].cred] : j \in DOMAIN d.creds }
      scopes == { [scope |-> d.scopes[j].scope, at |-> d.scopes[j].at] : j \in DOMAIN d.scopes }
      home == IF o.scope = "" THEN o.at ELSE Home(now, o.scope, o.at)
      due(at) == Found(before, at)
      revoked == IF o.op # "logout" THEN {} ELSE { c \in Found(before, o.at) : IsToken(x, c) }
      seen(w) == SelectSeq(d.seen, LAMBDA q : q.what = w)
  IN If(d.outcome # "ok", <<i, o.op, "outcome", d.outcome>>)
     \cup If(creds # now.creds, <<i, o.op, "credentials", creds, now.creds>>)
     \cup If(Len(d.creds) # Cardinality(creds), <<i, o.op, "twice", d.creds>>)
     \cup If(scopes # now.scopes, <<i, o.op, "scopes", scopes, now.scopes>>)
     \cup If(~ d.rest, <<i, o.op, "something else changed">>)
     \cup If(x.junk # d.junk, <<i, o.op, "other entries changed">>)
     \cup (IF o.op = "ping" THEN If(Len(seen("ping")) # 1, <<i, "pings", d.seen>>)
                                 \cup UNION { If(~ Same(q.at, o.at) \/ { c : c \in { q.auth[j] : j \in DOMAIN q.auth } } # due(o.at), <<i, "ping", q, due(o.at)>>) : q \in { seen("ping")[j] : j \in DOMAIN seen("ping") } }
           ELSE {})
     \cup (IF o.op = "view" THEN If(seen("meta") = <<>>, <<i, "views", d.seen>>)
                                 \cup UNION { If(~ Same(q.at, home) \/ { q.auth[j] : j \in DOMAIN q.auth } # due(home), <<i, "view", q, home, due(home)>>) : q \in { seen("meta")[j] : j \in DOMAIN seen("meta") } }
           ELSE {})
     \* A token that's forgotten about is also revoked, and nothing else ever is
     \cup If({ seen("revoke")[j].cred : j \in DOMAIN seen("revoke") } # revoked, <<i, o.op, "revokes", seen("revoke"), revoked>>)
     \cup If(\E j \in DOMAIN seen("revoke") : ~ Same(seen("revoke")[j].at, o.at), <<i, o.op, "revokes elsewhere", seen("revoke")>>)

Problems(x) == UNION { Step(x, i) : i \in DOMAIN x.ops }

Init == l = 1 /\ bad = 0
Check ==
  /\ l <= Len(Trace)
  /\ LET ps == Problems(Trace[l])
     IN /\ bad' = IF ps = {} THEN bad ELSE bad + 1
        /\ IF ps = {} THEN TRUE ELSE PrintT("@@" \o ToJson([line |-> l, problems |-> ps]))
  /\ l' = l + 1
Next == Check
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
