"""Runs one property's pipeline: model checking, scenario generation, replay
against the code under test, and trace checking; judges and records."""
import collections, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
TARGET = os.path.join(VERIF, "target")
VPH = os.path.join(TARGET, "debug", "vph")
SHIM = os.path.join(TARGET, "crash.so")
ORO = os.path.join(TARGET, "debug", "oro")


class ToolError(Exception):
    pass


def base_env():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", "")
    e.update({
        "RUSTUP_TOOLCHAIN": "1.72.1", "CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never",
        "RUSTC_WRAPPER": "", "RUST_BACKTRACE": "0", "CI": "true", "CARGO_TARGET_DIR": TARGET,
    })
    for k in ("CARGO_PROFILE_DEV_DEBUG", "CARGO_INCREMENTAL", "RUSTFLAGS"):
        e.pop(k, None)
    for k in list(e):
        if k.lower().startswith("oro_"):
            e.pop(k)
    return e


def build(bins=("vph", "oro"), log=None):
    cmd = ["cargo", "build", "--offline", "--locked"]
    for b in bins:
        cmd += ["--bin", b]
    p = subprocess.run(cmd, cwd=os.path.join(VERIF, "harness"), env=base_env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError("harness build failed:\n" + p.stdout[-4000:])
    src = os.path.join(VERIF, "harness", "shim", "crash.c")
    if not os.path.exists(SHIM) or os.path.getmtime(SHIM) < os.path.getmtime(src):
        p = subprocess.run(["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", SHIM, src, "-ldl"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise ToolError("shim build failed:\n" + p.stdout[-4000:])


def clean(o, n=3000):
    ls = [l for l in o.splitlines() if not re.match(r"(Parsing|Semantic|Linting|TLC2|Running|Starting|\"@@)", l)]
    return "\n".join(ls)[-n:]


class Known:
    """KNOWN_FINDINGS: 'finding: property=<id> sig=<signature> <what fails>'"""

    def __init__(self):
        self.items = []
        p = os.path.join(VERIF, "KNOWN_FINDINGS")
        if os.path.exists(p):
            for line in open(p):
                m = re.match(r"finding: property=(\S+) sig=(\S+) (.*)", line.strip())
                if m:
                    self.items.append(m.groups())

    def match(self, prop, sig):
        for (p, s, d) in self.items:
            if p == prop and s == sig:
                return (p, s, d)
        return None


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.out = os.path.join(VERIF, "out", prop)
        shutil.rmtree(self.out, ignore_errors=True)
        os.makedirs(self.out)
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.detail = collections.OrderedDict()
        self.bad = []          # (signature, problem, record)
        self.known = Known()
        self.fault_points = 0

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def note(self, k, v):
        self.detail[k] = v
        print("  %-34s %s" % (k, v if not isinstance(v, (dict, list)) else json.dumps(v)[:300]), flush=True)

    # ---- TLC -------------------------------------------------------------
    def _tlc(self, args, env, timeout, tag):
        md = os.path.join(self.out, "md-" + tag)
        e = base_env()
        e.update(env or {})
        cmd = ["tlc", "-noGenerateSpecTE", "-metadir", md] + args
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout)
        shutil.rmtree(md, ignore_errors=True)
        return p

    @staticmethod
    def _printed(out):
        for line in out.splitlines():
            if line.startswith('"@@'):
                yield json.loads(json.loads(line)[2:])

    def mc(self, module, cfg=None, env=None, timeout=3000, workers=8):
        """Exhaustive model checking of the specification itself."""
        cfg = cfg or module + ".cfg"
        t = time.time()
        p = self._tlc(["-workers", str(workers), "-config", cfg, module + ".tla"], env, timeout, "mc")
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", p.stdout)
        if "No error has been found" not in p.stdout or not m:
            raise ToolError("model checking of %s failed:\n%s" % (module, clean(p.stdout)))
        gen, dist = (int(x.replace(",", "")) for x in m[-1])
        self.states += dist
        self.transitions += gen
        self.note("model %s" % cfg[:-4], "%d distinct states, %d transitions, %.1fs" % (dist, gen, time.time() - t))

    def gen(self, module, num, depth, cfg=None, env=None, seed=None, name=None, timeout=900):
        """Random behaviours of a generator specification, one scenario each."""
        cfg = cfg or module + ".cfg"
        seed = self.seed if seed is None else seed
        p = self._tlc(["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed), "-workers", "1",
                       "-config", cfg, module + ".tla"], env, timeout, "gen")
        sc = list(self._printed(p.stdout))
        if not sc or "rror:" in p.stdout:
            raise ToolError("generation with %s failed:\n%s" % (module, clean(p.stdout)))
        m = re.findall(r"The number of states generated: ([\d,]+)", p.stdout)
        if m:
            self.transitions += int(m[-1].replace(",", ""))
        path = os.path.join(self.out, (name or module) + ".sc.ndjson")
        write(path, sc)
        self.note("scenarios from %s" % (name or module), len(sc))
        return path

    def enum(self, module, cfg=None, env=None, name=None, timeout=1500, workers=1):
        """All behaviours of an (exhaustive) generator specification."""
        cfg = cfg or module + ".cfg"
        p = self._tlc(["-workers", str(workers), "-config", cfg, module + ".tla"], env, timeout, "enum")
        sc = list(self._printed(p.stdout))
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", p.stdout)
        if not sc or "No error has been found" not in p.stdout:
            raise ToolError("enumeration with %s failed:\n%s" % (module, clean(p.stdout)))
        gen, dist = (int(x.replace(",", "")) for x in m[-1])
        self.states += dist
        self.transitions += gen
        path = os.path.join(self.out, (name or module) + ".sc.ndjson")
        write(path, sc)
        self.note("scenarios from %s (all)" % (name or module), len(sc))
        return path

    # ---- code under test -------------------------------------------------
    def vph(self, cmd, *args, env=None, timeout=3000):
        e = base_env()
        e["VP_ORO"] = os.environ.get("VP_ORO_DEV", ORO)
        e["VP_SHIM"] = SHIM
        e["VP_SEED"] = str(self.seed)
        e.update(env or {})
        # allocation limit: a runaway must not take the machine down
        p = subprocess.run(["bash", "-c", "ulimit -v 20000000; ulimit -c 0; exec \"$@\"", "x", VPH, cmd] + list(args),
                           env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout,
                           errors="replace")
        if p.returncode != 0:
            raise ToolError("vph %s failed (%d):\n%s" % (cmd, p.returncode, clean(p.stdout)))
        return p.stdout

    def replay(self, cmd, sc, env=None, name=None, timeout=3000, extra=()):
        out = sc.replace(".sc.ndjson", "." + (name or cmd) + ".ndjson")
        t = time.time()
        self.vph(cmd, sc, out, *extra, env=env, timeout=timeout)
        self.note("replayed with %s" % (name or cmd), "%d in %.1fs" % (sum(1 for _ in open(out)), time.time() - t))
        return out

    def trace(self, module, path, cfg=None, env=None, timeout=1800, sig=None, summary=None):
        """Checks recorded traces against the specification."""
        cfg = cfg or module + ".cfg"
        recs = [json.loads(l) for l in open(path)]
        if not recs:
            raise ToolError("no traces in " + path)
        e = {"TRACE": path}
        e.update(env or {})
        t = time.time()
        p = self._tlc(["-workers", "1", "-config", cfg, module + ".tla"], e, timeout, "tr")
        if "No error has been found" not in p.stdout:
            raise ToolError("trace checking with %s failed:\n%s" % (module, clean(p.stdout)))
        bad = list(self._printed(p.stdout))
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", p.stdout)
        self.traces += len(recs)
        if m:
            self.transitions += int(m[-1][0].replace(",", ""))
        for b in bad:
            rec = recs[b["line"] - 1]
            for pr in b["problems"]:
                s = sig(pr, rec) if sig else "-"
                self.bad.append((s, pr, rec, path))
        if not self.samples:
            self.samples.append(shorten(recs[0]))
        self.note("traces checked by %s" % module, "%d, %d rejected, %.1fs" % (len(recs), len(bad), time.time() - t))
        if summary:
            c = collections.Counter(summary(r) for r in recs)
            self.note("outcomes", dict(c.most_common(12)))
        return bad

    # ---- verdict ---------------------------------------------------------
    def finish(self, level="model_checking"):
        seen_known, viol = {}, []
        for (s, pr, rec, path) in self.bad:
            k = self.known.match(self.prop, s)
            if k:
                seen_known[k] = seen_known.get(k, 0) + 1
            else:
                viol.append((s, pr, rec, path))
        for (p, s, d), n in seen_known.items():
            print("KNOWN-FINDING: property=%s %s [%s, seen %d times]" % (p, d, s, n))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples[:3] or ["-"],
               "detail": self.detail, "known_findings_seen": sum(seen_known.values()),
               "violations": len(viol)}
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": cov, "wall_s": round(time.time() - self.t0, 2)}
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if not viol:
            print("%s: held on everything explored (%.1fs)" % (self.prop, time.time() - self.t0))
            return 0
        groups = collections.OrderedDict()
        for v in viol:
            groups.setdefault(json.dumps(v[1][:2] if isinstance(v[1], list) else v[1])[:300], []).append(v)
        n = 0
        for g, vs in groups.items():
            n += 1
            rp = os.path.join(self.out, "violation-%d.json" % n)
            with open(rp, "w") as f:
                json.dump({"property": self.prop, "signature": vs[0][0], "problem": vs[0][1],
                           "trace": vs[0][2], "from": vs[0][3], "count": len(vs)}, f, indent=1)
            print("  problem: %s (%d times)" % (json.dumps(vs[0][1])[:400], len(vs)))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp), flush=True)
        return 1


def shorten(x, n=1500):
    s = json.dumps(x)
    return x if len(s) <= n else s[:n] + "..."


def write(path, vals):
    with open(path, "w") as f:
        for v in vals:
            f.write(json.dumps(v) + "\n")


def read(path):
    return [json.loads(l) for l in open(path)]


def cat(paths, out):
    with open(out, "w") as f:
        for p in paths:
            f.write(open(p).read())
    return out
