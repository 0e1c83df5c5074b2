------------------------------- MODULE MCCreds -------------------------------
(***************************************************************************)
(* A config file as it is: a sequence of entries whose names are spelled one  *)
(* way or another, some of them not even names of places. Edits of it are as  *)
(* described in Creds.                                                      *)
(***************************************************************************)
EXTENDS Creds, TLC, IOUtils

Flag(f) == f \in DOMAIN IOEnv
Small == Flag("MC_SMALL")

Hosts == {"A", "B"}
Pths == IF Small THEN { <<>>, <<"n">> } ELSE { <<>>, <<"n">>, <<"n", "m">> }
Places == [host : Hosts, path : Pths]
Names == [at : Places, slash : BOOLEAN] \* and junk
Junk == [at |-> [host |-> "?", path |-> <<>>], slash |-> FALSE]
Scopes == {"s", "t"}
Cred == 1..2
Limit == 3

VARIABLES nodes, scopes, abs, steps
vars == <<nodes, scopes, abs, steps>>

Known(q) == { [at |-> q[i].name.at, cred |-> q[i].cred] : i \in { i \in DOMAIN q : q[i].name # Junk } }
ScopesOf(q) == { [scope |-> q[i].scope, at |-> q[i].at] : i \in DOMAIN q }

Init == /\ nodes \in { <<>>, <<[name |-> Junk, cred |-> 1]>>, <<[name |-> [at |-> [host |-> "A", path |-> <<>>], slash |-> TRUE], cred |-> 1], [name |-> Junk, cred |-> 1]>> }
        /\ scopes \in { <<>>, <<[scope |-> "s", sign |-> TRUE, at |-> [host |-> "B", path |-> <<>>]]>>, <<[scope |-> "s", sign |-> FALSE, at |-> [host |-> "B", path |-> <<>>]]>> }
        /\ abs = [creds |-> Known(nodes), scopes |-> ScopesOf(scopes), junk |-> { i \in DOMAIN nodes : nodes[i].name = Junk } # {}]
        /\ steps = 0

\* Does this entry belong to that registry?
For(name, reg) ==
  IF name = Junk THEN Flag("MC_JUNK")
  ELSE IF Flag("MC_SPELLED") THEN name = reg
  ELSE IF Flag("MC_HOST") THEN name.at.host = reg.at.host
  ELSE Same(name.at, reg.at)

Clean(q, reg) == SelectSeq(q, LAMBDA e : ~ For(e.name, reg))
DoLogin(reg, c, s, sign) ==
  /\ nodes' = Append(IF Flag("MC_APPEND") THEN nodes ELSE Clean(nodes, reg), [name |-> reg, cred |-> c])
  /\ scopes' = IF s = "" THEN scopes ELSE Append(SelectSeq(scopes, LAMBDA e : IF Flag("MC_SIGN") THEN ~ (e.scope = s /\ e.sign = sign) ELSE e.scope # s), [scope |-> s, sign |-> sign, at |-> reg.at])
  /\ abs' = Login(abs, reg.at, c, s)
DoLogout(reg) == nodes' = Clean(nodes, reg) /\ abs' = Cleared(abs, reg.at) /\ UNCHANGED scopes
Next == /\ steps < Limit /\ steps' = steps + 1
        /\ \E reg \in Names : \/ \E c \in Cred, s \in Scopes \cup {""}, sign \in BOOLEAN : (s = "" => sign) /\ DoLogin(reg, c, s, sign)
                              \/ DoLogout(reg)

\* What's found is the first entry that fits
Find(reg) == LET F == { i \in DOMAIN nodes : For(nodes[i].name, reg) } IN
             IF F = {} THEN {} ELSE { nodes[CHOOSE i \in F : \A j \in F : i <= j].cred }
Right == /\ \A reg \in Names : Find(reg) = Found(abs, reg.at)
         /\ Known(nodes) = abs.creds /\ ScopesOf(scopes) = abs.scopes
         /\ abs.junk = (\E i \in DOMAIN nodes : nodes[i].name = Junk)
=============================================================================
