------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* Where the value of each option comes from.                                *)
(*                                                                         *)
(* A run x has                                                              *)
(*   cli      what's on the command line, in order: options and values       *)
(*   env      the environment variables                                      *)
(*   glob     the global config file, in the user's config directory         *)
(*   proj     the config files of the projects there are                     *)
(*   conf     the config file named on the command line, if named            *)
(*   at       the project around the current directory, or "" if there's none*)
(* each, but proj, a sequence of [o |-> option, v |-> value]. Tables (which   *)
(* registry each scope has, which token each registry wants) also have keys:  *)
(* [o, k, v].                                                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

Default(o) ==
  CASE o \in {"hoisted", "lockfile-only", "prefer-copy", "locked", "json", "quiet", "proxy"} -> "false"
    [] o \in {"lockfile", "scripts", "apply"} -> "true"
    [] o = "default-tag" -> "latest"
    [] o = "loglevel" -> "info"
    [] o = "retries" -> "2"
    [] OTHER -> ""

Tables == {"scoped-registries", "auth"}

Has(src, o) == \E i \in DOMAIN src : src[i].o = o
\* The last one counts, should there be several
Val(src, o) == src[Max({ i \in DOMAIN src : src[i].o = o })].v

RECURSIVE First(_, _)
First(srcs, o) == IF srcs = <<>> THEN Default(o) ELSE IF Has(Head(srcs), o) THEN Val(Head(srcs), o) ELSE First(Tail(srcs), o)

\* Which project the run is about. Its own config file has no say in that.
Root(x) == LET r == First(IF x.useConf THEN <<x.cli, x.conf, x.env>> ELSE <<x.cli, x.glob, x.env>>, "root")
           IN IF r = "" THEN x.at ELSE r

Files(x) == IF x.useConf THEN <<x.conf>> ELSE <<IF Root(x) \in DOMAIN x.proj THEN x.proj[Root(x)] ELSE <<>>, x.glob>>

Effective(x, o) == IF o = "root" THEN Root(x) ELSE First(<<x.cli>> \o Files(x) \o <<x.env>>, o)

\* An entry of a table: files add up, the command line replaces.
Entries(src, o, k) == SelectSeq(src, LAMBDA e : e.o = o /\ e.k = k)
RECURSIVE FirstEntry(_, _, _)
FirstEntry(srcs, o, k) ==
  IF srcs = <<>> THEN "" ELSE LET es == Entries(Head(srcs), o, k) IN IF es # <<>> THEN es[Len(es)].v ELSE FirstEntry(Tail(srcs), o, k)
Entry(x, o, k) == IF Has(x.cli, o) THEN FirstEntry(<<x.cli>>, o, k) ELSE FirstEntry(Files(x), o, k)
=============================================================================
