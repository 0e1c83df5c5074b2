---------------------------- MODULE ScriptsTrace ----------------------------
(***************************************************************************)
(* Checks what the scripts of recorded applies logged: S when one starts,   *)
(* E when it ends, F when it is about to fail, with the place it runs in    *)
(* and the entries of the project's .bin at that time.                      *)
(* The dependency relation is that of what is on disk.                      *)
(***************************************************************************)
EXTENDS Install, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Part == IOEnv.PART
Events == <<"preinstall", "install", "postinstall">>

VARIABLES l, bad

(* ---- who depends on whom ---------------------------------------------- *)
Ids(s) == { x.id : x \in Range(s.places) }
TreeOn(s) == { [path |-> x.at, p |-> x.p, v |-> x.v] : x \in { x \in Range(s.places) : ~ x.instore } }
Plc(s, id) == CHOOSE x \in Range(s.places) : x.id = id
LinksOf(s, id) == IF id = Root THEN Range(s.links) ELSE Range(Plc(s, id).links)
Requires(U, s, id) == IF id = Root THEN RootDeps(s.root) ELSE DepsOf(U, Plc(s, id).p, Plc(s, id).v)
FoundBy(s, id, n) ==      \* places found under name n from a place
  IF s.mode = "isolated" THEN { e.to : e \in { e \in LinksOf(s, id) : e.n = n } } \cap Ids(s)
  ELSE LET q == Lookup(TreeOn(s), IF id = Root THEN <<>> ELSE Plc(s, id).at, n)
       IN { x.id : x \in { x \in Range(s.places) : x.at = q /\ ~ x.instore } }
(* <<from, to, kind>> *)
EdgesOn(U, s) == UNION { UNION { { <<id, to, d.k>> : to \in FoundBy(s, id, d.n) } : d \in Requires(U, s, id) } : id \in Ids(s) \cup {Root} }

(* ---- scripts ------------------------------------------------------------ *)
Idx(U, x) == CHOOSE i \in DOMAIN U.vers : U.vers[i].p = x.p /\ U.vers[i].v = x.v
Has(U, x) == \E i \in DOMAIN U.vers : U.vers[i].p = x.p /\ U.vers[i].v = x.v
(* <<place, event>> -> how it behaves, of what is newly installed *)
Jobs(U, how, s) ==
  UNION { LET i == Idx(U, x) IN
          { [id |-> x.id, ev |-> U.vers[i].scripts[j], how |-> how[i][j].how] : j \in DOMAIN U.vers[i].scripts }
          : x \in { x \in Range(s.places) : x.fresh /\ Has(U, x) } }
Fails(j) == j.how \in {"fail", "kill", "nostart"}

At_(s, k, id, ev) == { i \in DOMAIN s.events : s.events[i].k \in k /\ s.events[i].id = id /\ s.events[i].ev = ev }
Starts(s, ev) == { i \in DOMAIN s.events : s.events[i].k = "S" /\ s.events[i].ev = ev }
Ends(s, ev) == { i \in DOMAIN s.events : s.events[i].k # "S" /\ s.events[i].ev = ev }
Running(s, i) == Cardinality({ j \in 1..i : s.events[j].k = "S" }) - Cardinality({ j \in 1..i : s.events[j].k # "S" })

RankE(ev) == CHOOSE i \in 1..3 : Events[i] = ev

Analysed(x, i) ==
  LET s == x.steps[i]
      edges == TLCEval(EdgesOn(x.uni, s))
      next == TLCEval([a \in Ids(s) \cup {Root} |-> { e[2] : e \in { e \in edges : e[1] = a } }])
      beyond == TLCEval([a \in Ids(s) \cup {Root} |-> Beyond(next, {}, next[a])])
      jobs == TLCEval(IF s.noscripts THEN {} ELSE Jobs(x.uni, x.how, s))
      optional == { a \in Ids(s) : \A e \in edges : e[2] = a => e[3] = "opt" }
      fatal == { j \in jobs : Fails(j) /\ j.id \notin optional }
      first == IF fatal = {} THEN 4 ELSE CHOOSE n \in 1..3 : (\E j \in fatal : RankE(j.ev) = n) /\ \A j \in fatal : RankE(j.ev) >= n
      waits(a, b) == b \in beyond[a] /\ a \notin beyond[b]
      job(id, ev) == \E j \in jobs : j.id = id /\ j.ev = ev
      fair == Resolvable(x.uni, s.root) /\ ~ MayNestForever(x.uni, s.root)
  IN [ order |->
       \* only what should, and once
       { <<i, "unexpected", s.events[n].ev, s.events[n].id>> :
           n \in { n \in DOMAIN s.events : ~ job(s.events[n].id, s.events[n].ev) } }
       \cup { <<i, "more than once", j.ev, j.id>> : j \in { j \in jobs : Cardinality(At_(s, {"S"}, j.id, j.ev)) > 1 } }
       \cup (IF s.outcome # "ok" THEN {}
             ELSE { <<i, "did not run", j.ev, j.id>> : j \in { j \in jobs : j.how # "nostart" /\ At_(s, {"S"}, j.id, j.ev) = {} } })
       \* in order
       \cup UNION { { <<i, "too early", j.ev, j.id, d.id>> :
                        d \in { d \in jobs : d.ev = j.ev /\ waits(j.id, d.id) /\ d.how # "nostart" /\
                                  \E n \in At_(s, {"S"}, j.id, j.ev) : ~ \E m \in At_(s, {"E", "F"}, d.id, d.ev) : m < n } }
                    : j \in jobs }
       \cup { <<i, "next event too early", s.events[m].ev, s.events[m].id>> :
                m \in { m \in DOMAIN s.events : s.events[m].k = "S" /\ RankE(s.events[m].ev) > 1 /\
                         \E a \in 1..(RankE(s.events[m].ev) - 1) :
                            Cardinality({ k \in Ends(s, Events[a]) : k < m }) # Cardinality(Starts(s, Events[a])) } }
       \* bins are linked in between
       \cup (IF i = 1 THEN { <<i, "bins before preinstall ended", s.events[n].id>> :
                n \in { n \in DOMAIN s.events : s.events[n].ev = "preinstall" /\ s.events[n].bins # <<>> } } ELSE {})
       \cup (IF s.outcome = "ok" THEN { <<i, "bins not linked before", s.events[n].ev, s.events[n].id>> :
                n \in { n \in DOMAIN s.events : s.events[n].ev # "preinstall" /\ Range(s.events[n].bins) # Range(s.bins) } } ELSE {})
       \* not too many at a time
       \cup { <<i, "too many", n>> : n \in { n \in DOMAIN s.events : Running(s, n) > s.sconc } }
       \cup (IF s.outcome \in {"hang", "panic"} THEN { <<i, s.outcome>> } ELSE {}),
       fail |->
       (IF s.noscripts /\ s.events # <<>> THEN { <<i, "ran", s.events[1].id>> } ELSE {})
       \cup (IF fatal # {} /\ s.outcome = "ok" THEN { <<i, "failure ignored", j.ev, j.id>> : j \in fatal } ELSE {})
       \cup (IF fatal = {} /\ s.outcome # "ok" /\ fair THEN { <<i, "failed", s.outcome>> } ELSE {})
       \* what depends on what failed does not start, nor does anything later
       \cup UNION { { <<i, "started after failure", j.ev, j.id, d.id>> :
                        d \in { d \in fatal : d.ev = j.ev /\ waits(j.id, d.id) /\ At_(s, {"S"}, j.id, j.ev) # {} } } : j \in jobs }
       \cup { <<i, "later event", s.events[n].ev>> : n \in { n \in DOMAIN s.events : s.events[n].ev \in Range(Events) /\ RankE(s.events[n].ev) > first } } ]

Problems(x) == UNION { IF Part = "order" THEN Analysed(x, i).order ELSE Analysed(x, i).fail : i \in DOMAIN x.steps }

Init == l = 1 /\ bad = 0
Check ==
  /\ l <= Len(Trace)
  /\ LET ps == Problems(Trace[l])
     IN /\ bad' = IF ps = {} THEN bad ELSE bad + 1
        /\ IF ps = {} THEN TRUE ELSE PrintT("@@" \o ToJson([line |-> l, problems |-> ps]))
  /\ l' = l + 1
Next == Check
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
