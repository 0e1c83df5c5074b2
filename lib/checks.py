"""What is run for each property."""
import vp


def resolution(c, part):
    vp.build(["vph"])
    c.mc("MCResolver", env={} if not c.quick else {"MC_SMALL": "1"})
    for mode, n in (("plain", c.n(350, 6000)), ("all", c.n(250, 4000))):
        sc = c.gen("ResolverGen", n, 45, env={"GEN_MODE": mode}, name="resolve-" + mode)
        out = c.replay("resolve", sc)
        c.trace("ResolverTrace", out, env={"PART": part}, summary=lambda r: r["outcome"][0] + " " + r["outcome"][1])


def c01(c):
    resolution(c, "sound")


def c02(c):
    resolution(c, "shape")


def c03(c):
    vp.build(["vph"])
    c.mc("MCSelect")
    sc = c.gen("SelectGen", c.n(700, 20000), 40)
    out = c.replay("select", sc)
    c.trace("SelectTrace", out, sig=lambda pr, r: "empty-range" if pr[1] == "and" and pr[2] == pr[3] else "-")


def oc(*keys):
    return lambda r: " ".join("%s" % r[k][0] + (" " + r[k][1] if r[k][1] else "") for k in keys)


def locking(c, part):
    vp.build(["vph"])
    c.mc("MCLocked", env={"MC_SMALL": "1"} if c.quick else {})
    for mode, n in (("all", c.n(140, 4000)), ("plain", c.n(60, 2000))):
        sc = c.gen("LockGen", n, 48, env={"GEN_MODE": mode}, name="lock-" + mode)
        out = c.replay("relock", sc)
        c.trace("LockTrace", out, env={"PART": part}, summary=oc("outcome", "outcome2", "outcome3"))


def c04(c):
    locking(c, "same")


def c05(c):
    locking(c, "locked")
    installs(c, "frozen", [("frozen", 130, 3000)], model=False)


def outcomes(r):
    return " ".join(sorted({s["obs"]["outcome"] for s in r["steps"] if s["op"] == "apply"}))


def installs(c, part, themes, model=True):
    vp.build()
    if model:
        c.mc("MCInstall", env={"MC_SMALL": "1"} if c.quick else {})
    for theme, quick, thorough in themes:
        sc = c.gen("InstallGen", c.n(quick, thorough), 60, env={"THEME": theme}, name="install-" + theme)
        out = c.replay("install", sc, timeout=14000)
        c.trace("InstallTrace", out, env={"PART": part}, summary=outcomes, timeout=6000)


def c07(c):
    installs(c, "isolated", [("isolated", 200, 4000), ("mixed", 70, 1500)])


def c08(c):
    installs(c, "hoisted", [("hoisted", 200, 4000), ("mixed", 70, 1500)])


def c09(c):
    installs(c, "again", [("again", 220, 5000), ("mixed", 70, 1500)])


def c10(c):
    installs(c, "bins", [("again", 120, 3000), ("mixed", 140, 3000)])


def c11(c):
    installs(c, "repair", [("crash", 240, 6000)])


def scripts(c, part, runs):
    vp.build()
    c.mc("MCScripts", env={"MC_SMALL": "1"} if c.quick else {})
    for trouble, quick, thorough in runs:
        sc = c.gen("ScriptsGen", c.n(quick, thorough), 60, env={"TROUBLE": trouble}, name="scripts-" + trouble)
        out = c.replay("scripts", sc, timeout=14000)
        c.trace("ScriptsTrace", out, env={"PART": part}, timeout=6000,
                summary=lambda r: " ".join(sorted({s["outcome"] for s in r["steps"]})))


def c12(c):
    scripts(c, "order", [("none", 260, 5000), ("some", 80, 2000)])


def c13(c):
    scripts(c, "fail", [("some", 260, 5000), ("none", 60, 2000)])


def c25(c):
    installs(c, "lock", [("mixed", 150, 3000), ("crash", 120, 3000)])


def c06(c):
    vp.build(["vph"])
    for mode, n in (("all", c.n(450, 9000)), ("plain", c.n(300, 6000))):
        sc = c.gen("NpmGen", n, 80, env={"GEN_MODE": mode}, name="npm-" + mode)
        out = c.replay("npmlock", sc)
        c.trace("NpmTrace", out, summary=lambda r: r["how"].rstrip("1234") + ": " + r["outcome"][0])


def extracts(c, part, themes):
    vp.build()
    c.mc("MCExtract", env={"MC_SMALL": "1"} if c.quick else {})
    for theme, quick, thorough in themes:
        sc = c.gen("ExtractGen", c.n(quick, thorough), 12, env={"THEME": theme}, name="extract-" + theme)
        out = c.replay("extract", sc, timeout=14000)
        c.trace("ExtractTrace", out, env={"PART": part}, timeout=6000,
                summary=lambda r: " ".join(sorted({s["op"] + ":" + s["outcome"] for s in r["steps"] if "outcome" in s})))


def c14(c):
    extracts(c, "integrity", [("integrity", 400, 8000), ("cache", 120, 2000)])


def c15(c):
    extracts(c, "same", [("cache", 450, 8000), ("integrity", 60, 2000), ("scripts", 100, 2000), ("apply", 120, 3000)])


def c16(c):
    extracts(c, "escape", [("hostile", 400, 8000), ("apply", 300, 6000)])


def c17(c):
    extracts(c, "share", [("scripts", 300, 6000), ("cache", 150, 3000)])


def c18(c):
    vp.build()
    c.mc("MCAuth", env={"MC_SMALL": "1"} if c.quick else {})
    sc = c.gen("AuthGen", c.n(700, 15000), 5)
    out = c.replay("auth", sc, timeout=14000)
    c.trace("AuthTrace", out, timeout=6000, summary=lambda r: " ".join(o["op"] + ":" + o["outcome"] for o in r["ops"]))


def c21(c):
    vp.build()
    c.mc("MCEdit", env={"MC_SMALL": "1"} if c.quick else {})
    sc = c.gen("EditGen", c.n(1200, 14000), 3)
    out = c.replay("edit", sc, timeout=14000, env={"VPH_THREADS": "16"})
    c.trace("EditTrace", out, timeout=6000, summary=lambda r: " ".join(sorted({o["op"] + ":" + o["did"]["outcome"] for o in r["ops"]})))


def c22(c):
    vp.build()
    c.mc("MCConfig", env={"MC_SMALL": "1"} if c.quick else {})
    sc = c.gen("ConfigGen", c.n(1200, 20000), 6)
    out = c.replay("config", sc, timeout=14000)
    c.trace("ConfigTrace", out, timeout=6000, summary=lambda r: r["cmd"] + " " + r["did"]["outcome"])


def c19(c):
    vp.build()
    c.mc("MCRetry", env={"MC_SMALL": "1"} if c.quick else {})
    sc = c.gen("RetryGen", c.n(1200, 12000), 6)
    out = c.replay("retry", sc, timeout=14000, env={"VPH_THREADS": "80"})
    c.trace("RetryTrace", out, timeout=6000, summary=lambda r: r["cmd"] + " " + r["did"]["outcome"])


def c20(c):
    vp.build()
    c.mc("MCLogin")
    sc = c.gen("LoginGen", c.n(900, 10000), 6)
    out = c.replay("login", sc, timeout=14000, env={"VPH_THREADS": "24"})
    c.trace("LoginTrace", out, timeout=6000, summary=lambda r: r["way"] + " " + r["did"]["outcome"])


def c23(c):
    vp.build()
    c.mc("MCCreds", env={"MC_SMALL": "1"} if c.quick else {})
    sc = c.gen("CredsGen", c.n(1500, 16000), 6)
    out = c.replay("creds", sc, timeout=14000, env={"VPH_THREADS": "16"})
    c.trace("CredsTrace", out, timeout=6000, summary=lambda r: r["file"])


def c24(c):
    vp.build(["vph"])
    c.mc("MCSpec", env={"MC_SMALL": "1"} if c.quick else {}, **({} if c.quick else {"timeout": 6000}))
    sc = c.gen("SpecGen", c.n(500, 6000), 4)
    out = c.replay("spec", sc)
    c.trace("SpecTrace", out, timeout=6000, summary=lambda r: " ".join(sorted({x["got"]["x"]["k"] if x["got"]["outcome"] == "ok" else x["got"]["outcome"] for x in r["specs"]})))


def c26(c):
    vp.build()
    c.mc("MCShared", env={"MC_SMALL": "1"} if c.quick else {}, **({} if c.quick else {"timeout": 6000}))
    sc = c.gen("SharedGen", c.n(260, 4000), 60)
    out = c.replay("shared", sc, timeout=14000, env={"VPH_THREADS": "16"})
    c.trace("SharedTrace", out, timeout=6000, summary=lambda r: " ".join(sorted({x["obs"]["outcome"] for rd in r["rounds"] for x in rd["procs"]})))


def c27(c):
    vp.build()
    c.mc("MCView")
    sc = c.gen("ViewGen", c.n(320, 4000), 4)
    out = c.replay("view", sc, timeout=14000)
    c.trace("ViewTrace", out, timeout=6000, sig=lambda pr, r: "both-bundles" if '"both bundles"' in str(pr[1]) else "-",
            summary=lambda r: r["k"] + " " + " ".join(sorted({x["got"]["outcome"] for x in r["asks"]})))


def c28(c):
    vp.build()
    c.mc("MCStream")
    sc = c.gen("StreamGen", c.n(400, 8000), 4)
    out = c.replay("stream", sc, timeout=14000)
    c.trace("StreamTrace", out, timeout=6000,
            summary=lambda r: " ".join(sorted({x["api"] + " " + x["how"] + " " + x["got"]["outcome"] for x in r["asks"]})))


def c29(c):
    vp.build()
    c.mc("MCInstall", env={"MC_REAPPLY": "1", "MC_SMALL": "1"})
    installs(c, "anew", [("reapply", 110, 2500), ("clear", 160, 3500)], model=False)


def c30(c):
    vp.build()
    c.mc("MCTelemetry")
    sc = c.gen("TelemetryGen", c.n(420, 5000), 6)
    out = c.replay("telemetry", sc, timeout=14000)
    c.trace("TelemetryTrace", out, timeout=6000,
            summary=lambda r: " ".join(sorted({x["did"]["outcome"] + ("-asked" if x["did"]["asked"] else "") + ("-sent" if x["did"]["sent"] else "") for x in r["steps"]})))


def c31(c):
    vp.build()
    c.mc("MCShapes")
    sc = c.gen("ShapesGen", c.n(900, 15000), 4)
    out = c.replay("shapes", sc, timeout=14000)
    c.trace("ShapesTrace", out, timeout=6000, summary=lambda r: r["src"] + " " + r["cmd"] + " " + r["did"]["outcome"])


CHECKS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06,
          "C07": c07, "C08": c08, "C09": c09, "C10": c10, "C11": c11, "C12": c12, "C13": c13,
          "C14": c14, "C15": c15, "C16": c16, "C17": c17, "C18": c18, "C19": c19, "C20": c20, "C21": c21, "C22": c22, "C23": c23, "C24": c24, "C25": c25, "C26": c26, "C27": c27, "C28": c28, "C29": c29, "C30": c30, "C31": c31}
NOTES = {}
NA = {}
