"""M01: the scripted mock reader against MockCore."""
from vlib import *

CFG = "SPECIFICATION Spec\nINVARIANT TypeOK\nCHECK_DEADLOCK FALSE\n"
GEN = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"


def check(r):
    big = r.tier == "thorough"
    D = lambda **k: {a: tla(b) for a, b in k.items()}
    xs = r.generate("MockGen", GEN + "ACTION_CONSTRAINT Emit\nVIEW View\n", defs=D(MaxScript=2, MaxCalls=3, Walk=False), timeout=1200)
    if not big:
        xs = r.stratify(xs, 6000, lambda s: (s["wrap"], s["nil"], tuple(x["op"] for x in s["script"]),
                                             tuple(c["op"] for c in s["calls"])))
    n = 1500 if not big else 20000
    for size in (5, 9) if not big else (4, 8, 16, 30):
        xs += r.generate("MockGen", GEN, args=["-simulate", "num=%d" % n, "-depth", str(2 * size + 10), "-seed", str(r.seed * 37 + size)],
                         defs=D(MaxScript=size, MaxCalls=size + 2, Walk=True), timeout=1800)
    p = r.write_lines("scn.ndjson", xs)
    tr = r.drive_traces("mockdrv", ["-in", p, "-seed", r.seed], len(xs), timeout=1500)
    rej = r.validate("MockTrace", tr, CFG, "mock reader")
    r.judge(rej, tr, "mock reader")
    ops = {}
    for t in tr:
        for e in t["ev"]:
            k = e["op"] + "/" + e["out"]
            ops[k] = ops.get(k, 0) + 1
    r.extra["calls_by_operation_and_outcome"] = ops
    conc(r, big)
    return r.finish(assumptions=["the order of a script's calls after a refused call is left open, except past its end"])


def conc(r, big):
    """Several goroutines share one script of like-shaped expectations: each
    expectation is used by exactly one call."""
    scs = []
    for i in range(400 if not big else 4000):
        k = r.rng.choice([1, 2])
        n = r.rng.randint(3, 7)
        op = r.rng.choice(["read", "readat", "seek"])
        sh = {"op": op, "len": k if op != "seek" else 0, "off": "0" if op == "read" else "7", "wh": "0", "mark": ""}
        script = [dict(sh, n=sh["len"], data=[(17 * i + j) % 200 for j in range(sh["len"])], pos=str(i) if op == "seek" else "0",
                       fi="nil", err="nil") for i in range(n)]
        scs.append({"nil": False, "wrap": r.rng.choice(["raw", "111", "011"]), "script": script, "calls": [sh] * (n + r.rng.choice([0, 1]))})
    p = r.write_lines("conc.ndjson", scs)
    out = r.path("conc-tr.ndjson")
    d = r.drive("mockdrv", ["-mode", "conc", "-in", p, "-out", out, "-seed", r.seed], race=True, timeout=900,
                env={"GORACE": "exitcode=0 halt_on_error=0", "GOMAXPROCS": "8"})
    tr = r.read_lines(out)
    if "DATA RACE" in d.stderr:
        r.violations.append(({r.prop}, "data race in concurrent use of one mock reader", {"race_report": d.stderr[:6000]}))
    res = r.tlc("MockLin", GEN, env={"TRACE_FILE": r.write_lines("lin.ndjson", tr)}, timeout=900)
    g, s = r.counts(res)
    r.states += s
    r.transitions += g
    acc = set(int(m) for m in re.findall(r'^<<"ACCEPT", (\d+)>>', res, re.M))
    r.traces += len(tr)
    r.events += sum(len(t["ev"]) for t in tr)
    r.log("searched", len(tr), "concurrent histories; without linearization:", len(tr) - len(acc))
    for t in tr:
        if t["id"] not in acc:
            r.violations.append(({r.prop}, "concurrent use of the mock reader without linearization: %s" % shorten(t["ev"]), {"history": t}))
