------------------------------ MODULE MCConfig ------------------------------
(***************************************************************************)
(* Options are found in two passes over the command line: the first finds    *)
(* out which config files there are, then whatever these and the environment *)
(* have is written behind what's on the command line already, unless it's    *)
(* given there, and the second pass reads all of that. In the end, all is as  *)
(* in Config.                                                               *)
(***************************************************************************)
EXTENDS Config, IOUtils, TLC

Flag(f) == f \in DOMAIN IOEnv
Small == Flag("MC_SMALL")

\* One flag with a negation, one option with a value, one table, and the root
Root1 == { <<>>, <<[o |-> "root", k |-> "", v |-> "p2"]>> }
Flags == { <<>>, <<[o |-> "hoisted", k |-> "", v |-> "true"]>>, <<[o |-> "hoisted", k |-> "", v |-> "false"]>> }
Opts == { <<>>, <<[o |-> "default-tag", k |-> "", v |-> "b"]>> }
Tabs == { <<>>, <<[o |-> "auth", k |-> "r", v |-> "t"]>>, <<[o |-> "auth", k |-> "q", v |-> "t"]>> }
\* Distinguishes sources by what they say
By(src, n) == [i \in DOMAIN src |-> IF src[i].o \in {"root", "hoisted"} THEN src[i] ELSE [src[i] EXCEPT !.v = @ \o n]]

Src(n, root, tabs) == { By(r \o f \o o \o t, n) : r \in root, f \in Flags, o \in IF Small THEN {<<>>} ELSE Opts, t \in tabs }
NoTabs == { <<>> }

VARIABLES x, pc, cfg, root, args
vars == <<x, pc, cfg, root, args>>

Init ==
  /\ \E cli \in Src("c", Root1, Tabs), p1 \in Src("1", {<<>>}, Tabs), glob \in Src("g", Root1, Tabs), conf \in Src("f", IF Small THEN {<<>>} ELSE Root1, {<<>>}), env \in Src("e", Root1, NoTabs), uc \in BOOLEAN :
       /\ (uc => glob \in Src("g", Root1, {<<>>}) /\ p1 = <<>>) /\ (~ uc => conf = <<>>)
       /\ x = [cli |-> cli, env |-> env, glob |-> glob, conf |-> conf, useConf |-> uc, at |-> "p1",
               proj |-> [p \in {"p1", "p2"} |-> IF p = "p1" THEN p1 ELSE <<[o |-> "hoisted", k |-> "", v |-> "true"], [o |-> "auth", k |-> "r", v |-> "t2"]>>]]
  /\ pc = "first" /\ cfg = <<>> /\ root = "" /\ args = <<>>

\* The value of the last layer that has one
Layered(ls, o) == First(Reverse(ls), o)
Keys == {"r", "q"}
LayeredEntry(ls, o, k) == FirstEntry(Reverse(ls), o, k)

Base == LET e == x.env g == IF x.useConf THEN x.conf ELSE x.glob IN IF Flag("MC_ENVLAST") THEN <<g, e>> ELSE <<e, g>>

FirstPass ==
  /\ pc = "first" /\ pc' = "files"
  /\ LET c == Layered(Base, "root")
         r == IF Has(x.cli, "root") /\ ~ Flag("MC_CLIROOT") THEN Val(x.cli, "root") ELSE IF c = "" \/ Flag("MC_CWD") THEN x.at ELSE c
     IN root' = r
  /\ UNCHANGED <<x, cfg, args>>
LoadFiles ==
  /\ pc = "files" /\ pc' = "layer"
  /\ cfg' = IF x.useConf /\ ~ Flag("MC_CONF") THEN Base
            ELSE IF Flag("MC_ENVLAST") THEN <<Base[1], x.proj[root], Base[2]>> ELSE Append(Base, x.proj[root])
  /\ UNCHANGED <<x, root, args>>
Given(o) == IF o = "hoisted" /\ Flag("MC_NEG") THEN \E i \in DOMAIN x.cli : x.cli[i].o = o /\ x.cli[i].v = "true" ELSE Has(x.cli, o)
Layer ==
  /\ pc = "layer" /\ pc' = "done"
  /\ LET one(o) == IF Given(o) \/ Layered(cfg, o) = Default(o) THEN <<>> ELSE <<[o |-> o, k |-> "", v |-> Layered(cfg, o)]>>
         ent(k) == IF (Has(x.cli, "auth") /\ ~ Flag("MC_TABLE")) \/ LayeredEntry(cfg, "auth", k) = "" THEN <<>> ELSE <<[o |-> "auth", k |-> k, v |-> LayeredEntry(cfg, "auth", k)]>>
         flag == IF Given("hoisted") \/ ~ \E i \in DOMAIN cfg : Has(cfg[i], "hoisted") THEN <<>> ELSE <<[o |-> "hoisted", k |-> "", v |-> Layered(cfg, "hoisted")]>>
     IN args' = x.cli \o one("default-tag") \o one("root") \o flag \o ent("r") \o ent("q")
  /\ UNCHANGED <<x, cfg, root>>
Next == FirstPass \/ LoadFiles \/ Layer

Final(o) == IF Has(args, o) THEN Val(args, o) ELSE Default(o)
Right ==
  pc = "done" =>
    /\ \A o \in {"hoisted", "default-tag"} : Final(o) = Effective(x, o)
    /\ \A k \in Keys : FirstEntry(<<args>>, "auth", k) = Entry(x, "auth", k)
    /\ root = Root(x) /\ (IF Has(args, "root") THEN Val(args, "root") ELSE x.at) = Root(x)
=============================================================================
