------------------------------ MODULE Shapes ------------------------------
(***************************************************************************)
(* What there is to be said of data of unexpected shapes: which fields       *)
(* installing takes nothing from, what the others may be, and what's made of *)
(* the manifest a package comes with.                                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Kinds == {"right", "absent", "null", "bool", "num", "str", "list", "dict", "deep"}

\* Of a version, in a registry's document: nothing of these is needed to install it
Needless == {"license", "engines", "os", "cpu", "bin", "scripts", "keywords", "author", "maintainers", "contributors", "repository", "bugs",
             "homepage", "description", "main", "exports", "funding", "directories", "man", "files", "type", "config", "publishConfig",
             "hasInstallScript", "_id", "_npmUser", "_npmVersion", "gitHead", "x-unknown", "dist.fileCount", "dist.unpackedSize", "dist.signatures",
             "dist.x-unknown", "peerDependenciesMeta", "acceptDependencies"}
\* Of the document as a whole
NeedlessTop == {"time", "readme", "maintainers", "license", "users", "_id", "_rev", "modified", "name", "keywords", "x-unknown", "repository"}
\* Of the project's manifest
NeedlessRoot == {"license", "scripts", "bin", "engines", "author", "keywords", "main", "private", "files", "type", "config", "exports", "x-unknown", "os", "man", "funding"}

\* These count, and may be like this
Takes(where, f, kind) ==
  \/ kind = "right"
  \/ where = "top" /\ f \in NeedlessTop
  \/ where \in {"old", "new"} /\ f \in Needless
  \/ where = "root" /\ f \in NeedlessRoot
  \/ where \in {"old", "new"} /\ f = "deprecated" /\ kind \in {"absent", "bool", "str"}
  \/ where \in {"old", "new"} /\ f = "_hasShrinkwrap" /\ kind \in {"absent", "bool"}
  \/ where \in {"old", "new"} /\ f = "bundleDependencies" /\ kind \in {"absent", "list0"}
  \/ where = "old" /\ f \in {"dependencies", "devDependencies", "optionalDependencies", "peerDependencies"} /\ kind \in {"absent", "dict0"}
  \/ where = "new" /\ f \in {"devDependencies", "optionalDependencies", "peerDependencies"} /\ kind \in {"absent", "dict0"}
  \/ where = "old" /\ f \in {"dist.integrity", "dist.shasum", "dist.npm-signature", "dist.tarball"} /\ kind = "absent"
  \/ where = "new" /\ f \in {"dist.integrity", "dist.shasum", "dist.npm-signature"} /\ kind = "absent"
  \/ where = "root" /\ f \in {"name", "version", "devDependencies", "peerDependencies"} /\ kind = "absent"

AllTake(spots) == \A i \in DOMAIN spots : Takes(spots[i].where, spots[i].f, spots[i].kind)

\* A package's own manifest: what's not valid in it is as if it weren't there
Bins(m) ==
  IF m.bin = "str" THEN (IF m.name = "right" THEN {"a"} ELSE {})
  ELSE IF m.bin \in {"dict", "dictodd"} THEN {"x"}
  ELSE IF m.bin \in {"list", "listodd"} THEN {"cli.js"}
  ELSE IF m.dirs = "right" THEN {"tool.js"} ELSE {}
Runs(m) == m.scripts \in {"right", "odd"}
\* ... as long as it can be read at all
Readable(m) == m.wrap \in {"plain", "bom", "twice"}

\* Two commands that leave out optional dependencies, or have none left to install
Plan(cmd) == IF cmd = "remove" THEN {"a", "b"} ELSE {"a", "b", "d"}
=============================================================================
