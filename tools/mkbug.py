#!/usr/bin/env python3
"""mkbug.py ID PROPERTY 'needs' 'breaks' FILE  <<< 'OLD\n=====\nNEW' (several, separated by a line '#####', FILE= lines switch files)
Writes seeded/ID/patch.diff and meta.json from textual replacements; demo.py must be written separately."""
import sys, subprocess, os, json, shutil
i, prop, needs, breaks = sys.argv[1:5]
R = "/tmp/plant/repo"
D = "/verif/seeded/" + i
subprocess.check_call(["git", "-C", R, "checkout", "-q", "--", "."])
subprocess.check_call(["git", "-C", R, "fetch", "-q", "/repo", "HEAD"])
subprocess.check_call(["git", "-C", R, "reset", "-q", "--hard", "FETCH_HEAD"])
f = None
for part in sys.stdin.read().split("\n#####\n"):
    if part.startswith("FILE="):
        l, part = part.split("\n", 1)
        f = os.path.join(R, l[5:].strip())
    old, new = part.split("\n=====\n")
    old, new = old.strip("\n"), new.strip("\n")
    s = open(f).read()
    n = s.count(old)
    if n != 1:
        sys.exit("%d matches of %r" % (n, old[:80]))
    open(f, "w").write(s.replace(old, new))
os.makedirs(D, exist_ok=True)
open(D + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", R, "diff"]).decode())
subprocess.check_call(["git", "-C", R, "checkout", "-q", "--", "."])
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(D + "/meta.json", "w"), indent=2)
shutil.copy("/verif/tools/demo/reg.py", D + "/reg.py")
open(D + "/demo.sh", "w").write('#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 exec python3 "$(dirname "$0")/demo.py"\n')
os.chmod(D + "/demo.sh", 0o755)
print("wrote", D)
