"""dev.py GEN N DEPTH CMD TRACE K=V.. : one pipeline stage by hand (scratch dir /tmp/dev)"""
import sys, os, collections, json
sys.dont_write_bytecode = True
import vp
a = sys.argv[1:]
gen, n, depth, cmd, tr = a[:5]
env = dict(x.split("=", 1) for x in a[5:])
c = vp.Ctx.__new__(vp.Ctx)
c.__init__("dev", "quick", int(env.get("SEED", "1")))
sc = c.enum(gen, env=env) if n == "all" else c.gen(gen, int(n), int(depth), env=env)
out = c.replay(cmd, sc, env=env)
print(out)
parts = env.get("PART", "-").split(",")
for p in parts:
    e = dict(env); e["PART"] = p
    c.bad = []
    c.trace(tr, out, env=e)
    k = collections.Counter(json.dumps(b[1])[:int(env.get("W", "60"))] for b in c.bad)
    for x, m in k.most_common(15): print("  ", m, x)
    with open("/tmp/bad-%s.ndjson" % p, "w") as f:
        for b in c.bad: f.write(json.dumps({"problem": b[1], "rec": b[2]}) + "\n")
