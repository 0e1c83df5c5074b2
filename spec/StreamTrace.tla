----------------------------- MODULE StreamTrace -----------------------------
(***************************************************************************)
(* Checks what readers of packages' tarballs and entries were given (see      *)
(* StreamGen).                                                             *)
(***************************************************************************)
EXTENDS Stream, Json, IOUtils, SequencesExt

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad

Extra == [path |-> "package/extra.js", kind |-> "file", size |-> 6, to |-> "", x |-> FALSE]
Served(x, t) == IF t = "swap" THEN Append(x.files, Extra) ELSE x.files
KindOf(f) == CASE f.kind = "file" -> "regular" [] f.kind = "dir" -> "directory" [] OTHER -> "symlink"
SizeOf(f) == IF f.kind = "file" THEN f.size ELSE 0

\* what there is nothing of can't be altered
Fine(x, a) == Good(Guard(x.meta, a.how, a.given), IF a.tamper = "alter" /\ \A j \in DOMAIN x.files : x.files[j].size = 0 THEN "none" ELSE a.tamper)

\* ---- raw
Raw(x, a) ==
  LET g == a.got IN
  IF ~ g.prefix THEN { "other bytes" }
  ELSE IF a.tamper = "drop" THEN (IF g.outcome = "error" THEN {} ELSE { "the end of half of it" })
  ELSE IF Fine(x, a) THEN
    (IF g.outcome # "ok" THEN { "error where there's nothing wrong: " \o g.kind } ELSE IF ~ g.all THEN { "not all of it" } ELSE IF g.again # "Ok(0)" THEN { "no end: " \o g.again } ELSE {})
  ELSE IF g.outcome # "error" THEN { "accepted" }
  ELSE IF g.kind # "InvalidData" THEN { "kind " \o g.kind } ELSE IF g.again # "end" THEN { "goes on" } ELSE {}

\* ---- entries
Listed(x, a) ==
  LET fs == Served(x, a.tamper) g == a.got IN
  UNION { IF j > Len(fs) THEN { "an entry more" }
          ELSE (IF g.list[j].path # fs[j].path THEN { "path " \o g.list[j].path } ELSE {})
            \cup (IF g.list[j].kind # KindOf(fs[j]) THEN { "kind " \o g.list[j].kind } ELSE {})
            \cup (IF g.list[j].size # SizeOf(fs[j]) THEN { "size" } ELSE {})
            \cup (IF g.list[j].body = "wrong" THEN { "body" } ELSE {}) : j \in DOMAIN g.list }

\* Where entries end up: the last one for each path, but for those that lead elsewhere.
Norm(p) == CASE p = "package/./c.js" -> "package/c.js" [] p = "package/empty/" -> "package/empty" [] OTHER -> p
Files(x, a) ==
  LET fs == Served(x, a.tamper)
      last(j) == \A k \in DOMAIN fs : k > j => Norm(fs[k].path) # Norm(fs[j].path)
  IN { [p |-> Norm(fs[j].path), k |-> fs[j].kind, c |-> IF fs[j].kind = "file" THEN ToString(j) ELSE fs[j].to, x |-> fs[j].kind = "file" /\ fs[j].x] : j \in { i \in DOMAIN fs : last(i) } }
\* (contents that are the same can't be told apart)
Alike(x, a, e, f) ==
  LET fs == Served(x, a.tamper) IN
  e.p = f.p /\ e.k = f.k /\ (e.c = f.c \/ (e.k = "file" /\ \E i, j \in DOMAIN fs : ToString(i) = e.c /\ ToString(j) = f.c /\ fs[i].size = 0 /\ fs[j].size = 0)) /\ (e.k = "dir" \/ e.x = f.x)
Unpacked(x, a) ==
  LET want == Files(x, a)
      have == { a.got.tree[i] : i \in DOMAIN a.got.tree }
      files == { e \in have : e.k # "dir" }
      old == IF a.dirty THEN { e \in files : e.p = "package/a.js" } ELSE {}
  IN { <<"missing", w.p>> : w \in { w \in want : ~ \E e \in have : Alike(x, a, w, e) } }
     \cup { <<"there too", e.p>> : e \in { e \in files \ old : ~ \E w \in want : Alike(x, a, w, e) } }

\* one at a time: what was asked for is where it was asked for
UnpackedTo(x, a) ==
  LET fs == Served(x, a.tamper)
      at(j) == { a.got.tree[i] : i \in { k \in DOMAIN a.got.tree : a.got.tree[k].p = "f" \o ToString(j) } }
  IN { <<"unpacked", ToString(j)>> : j \in { i \in DOMAIN fs : ~ \E e \in at(i) : e.k = fs[i].kind /\ (fs[i].kind = "file" => (e.c = ToString(i) \/ fs[i].size = 0) /\ e.x = fs[i].x) } }

Ents(x, a) ==
  LET g == a.got gd == Guard(x.meta, a.how, a.given) fine == Fine(x, a) IN
  IF a.eat = "stop" /\ g.outcome = "ok" /\ g.list # <<>> THEN (IF a.tamper \in Readable THEN Listed(x, a) ELSE {})
  ELSE IF a.tamper \in Readable THEN
    (IF x.hostile THEN {} ELSE Listed(x, a))
    \cup (IF ~ fine THEN (IF g.outcome = "error" THEN {} ELSE { "accepted" })
          ELSE IF x.hostile THEN {}
          ELSE IF g.outcome # "ok" THEN { "error where there's nothing wrong: " \o g.why }
          ELSE IF Len(g.list) # Len(Served(x, a.tamper)) THEN { "not all entries" }
          ELSE IF a.eat = "unpack" THEN Unpacked(x, a)
          ELSE IF a.eat = "unpack to" THEN UnpackedTo(x, a) ELSE {})
  ELSE IF g.outcome = "error" \/ (gd = "any" /\ a.tamper \in Unsure) THEN {}
  ELSE { "accepted" }

One(x, a) ==
  (IF a.got.outcome \notin {"ok", "error"} THEN { <<a.got.outcome, a.got.why>> }
   ELSE { <<ToString(p), "">> : p \in IF a.api = "tarball" THEN Raw(x, a) ELSE Ents(x, a) })
  \cup (IF a.got.escaped THEN { <<"escaped", "">> } ELSE {})
Problems(x) == UNION { { <<ToString(j), x.asks[j].api \o " " \o x.asks[j].how, x.asks[j].tamper, x.asks[j].eat, p[1], p[2]>> : p \in One(x, x.asks[j]) } : j \in DOMAIN x.asks }

Init == l = 1 /\ bad = 0
Check ==
  /\ l <= Len(Trace)
  /\ LET ps == Problems(Trace[l])
     IN /\ bad' = IF ps = {} THEN bad ELSE bad + 1
        /\ IF ps = {} THEN TRUE ELSE PrintT("@@" \o ToJson([line |-> l, problems |-> ps]))
  /\ l' = l + 1
Next == Check
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
