"""B10: concurrent histories of the real package, under chosen schedules and
under the race detector, searched for a linearization."""
from vlib import *
import bodyseq

LIN_CFG = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"


def gen(r, n, nt, pert, opset=("read", "len", "copy", "close", "unwrap", "seek", "readat", "writeto")):
    defs = {k: tla(v) for k, v in dict(NT=nt, PerT=pert, Ns={0, 1, 3, 4}, Ks={1, 2, 3}, Offs={-1, 0, 1, 2}, OpSet=set(opset)).items()}
    depth = 3 + 2 * nt * pert
    return r.generate("BodyConcGen", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n",
                      args=["-simulate", "num=%d" % n, "-depth", str(depth + 2), "-seed", str(r.seed * 131 + nt * 10 + pert)],
                      defs=defs, timeout=1200)


def sequential_too(r, bad, scs):
    """Which of the rejected histories show a defect that needs no concurrency:
    the same calls, one after another, in the recorded orders, are rejected too."""
    seqs, owner = [], []
    for t in bad:
        s = scs[t["scn"] - 1]
        th = s["threads"]
        orders = [[op for x in th for op in x], [op for x in reversed(th) for op in x]]
        rr = []
        for i in range(max(len(x) for x in th)):
            rr += [x[i] for x in th if i < len(x)]
        orders.append(rr)
        for o in orders:
            seqs.append({"env": t["env"], "nb": t["nb"], "ops": scaled(s["pre"] + o, s.get("scale", 1)), "scale": 1})
            owner.append(t["id"])
    p = r.write_lines("seq.ndjson", seqs)
    tr = r.drive_traces("bodydrv", ["-mode", "seq", "-in", p, "-seed", r.seed], len(seqs), timeout=900)
    rej = r.validate("BodyTrace", tr, bodyseq.TRACE_CFG, "sequential re-runs")
    return {owner[i - 1]: sorted(l) for i, (_, l) in rej.items()}


def scaled(ops, k):
    res = []
    for op in ops:
        op = dict(op)
        for f in ("k", "o", "m"):
            if op.get(f, 0) > 0 or f == "o":
                op[f] = op.get(f, 0) * k
        res.append(op)
    return res


def histories(r, scs, reps, race, what):
    p = r.write_lines("conc.ndjson", scs)
    out = r.path("conctrace.ndjson")
    d = r.drive("bodydrv", ["-mode", "conc", "-in", p, "-out", out, "-seed", r.seed, "-reps", reps, "-hang", "10s"],
                race=race, sched=not race, timeout=1500, ok=(0, 2),
                env={"GORACE": "exitcode=0 halt_on_error=0", "GOMAXPROCS": "8"})
    tr = r.read_lines(out)
    report = d.stderr[:6000]
    if d.returncode == 2:
        if not re.search(r"^(fatal error|panic|runtime: |SIG)", d.stderr, re.M):
            raise CheckError("driver exited 2:\n" + d.stderr[-3000:])
        # the code under test took the whole process down
        m = re.search(r"^(fatal error|panic|runtime: |SIG).*", d.stderr, re.M)
        tr.append({"id": len(tr) + 1, "scn": min(len(scs), (tr[-1]["scn"] if tr else 0) + 1), "env": scs[0]["env"], "nb": 1,
                   "ev": [], "hung": True, "race": False, "crash": m.group(0)})
        report = d.stderr[max(0, m.start() - 200):][:6000]
    if not tr:
        raise CheckError("no histories recorded")
    acc_missing = lin(r, tr, what)
    bad = [t for t in tr if t["id"] in acc_missing]
    r.extra.setdefault("histories", {})[what] = len(tr)
    if not race:
        r.extra["histories_outside_schedule_control"] = sum(1 for t in tr if t.get("free"))
    return bad, report


def lin(r, tr, what):
    """ids of the histories without a linearization"""
    missing = set()
    for i in range(0, len(tr), 4000):
        part = tr[i:i + 4000]
        p = r.write_lines("lin.ndjson", part)
        out = r.tlc("BodyLin", LIN_CFG, env={"TRACE_FILE": p}, timeout=1500, mem="10g")
        g, d = r.counts(out)
        r.states += d
        r.transitions += g
        acc = set(int(m) for m in re.findall(r'^<<"ACCEPT", (\d+)>>', out, re.M))
        missing |= set(t["id"] for t in part) - acc
    r.traces += len(tr)
    r.events += sum(len(t["ev"]) for t in tr)
    r.samples.append({"what": what, "trace": shorten(r.rng.choice(tr))})
    r.log("searched", len(tr), what, "histories; without linearization:", len(missing))
    return missing


def report(r, bad, scs, what, report=""):
    if not bad:
        return
    plain = [t for t in bad if not t["race"] and not t.get("crash")]
    plain = [t for t in plain if t["hung"]][:5] + [t for t in plain if not t["hung"]][:30]
    seq = sequential_too(r, plain, scs) if plain else {}
    for t in bad:
        if t["id"] in seq:
            for l in seq[t["id"]]:
                r.other[l] = r.other.get(l, 0) + 1
            continue
        why = "process crashed: " + t["crash"] if t.get("crash") else "hangs" if t["hung"] else "data race" if t["race"] else "history without linearization"
        r.violations.append(({r.prop}, "%s: %s: %s" % (what, why, shorten(t["ev"])),
                             {"what": what, "why": why, "history": t, "scenario": scs[t["scn"] - 1] if t["scn"] else None,
                              "race_report": report if t["race"] or t["hung"] else ""}))


def conc(r, big, opset=None, n=None):
    kw = {"opset": opset} if opset else {}
    n = n or (200 if not big else 1500)
    scs = gen(r, n, 2, 2, **kw) + gen(r, n, 2, 3, **kw) + gen(r, n // 2, 3, 2, **kw)
    for s in scs:
        s["scale"] = r.rng.choice([1, 1, 1, 16384, 32768])
    r.rng.shuffle(scs)
    bad, _ = histories(r, scs, 24 if not big else 200, False, "scheduled")
    report(r, bad, scs, "scheduled")
    return scs


def check(r):
    big = r.tier == "thorough"
    design(r, big)
    scs = conc(r, big)
    more = scs + gen(r, 200 if not big else 1500, 3, 4)
    for s in more[len(scs):]:
        s["scale"] = r.rng.choice([1, 1, 16384, 32768])
    bad, rep = histories(r, more, 12 if not big else 100, True, "race detector")
    report(r, bad, more, "race detector", rep)
    return r.finish(assumptions=bodyseq.ASSUME + [
        "schedules are chosen at lock operations and source calls; other shared accesses are covered by the race detector"])


CONC_CFG = ("SPECIFICATION Spec\nCHECK_DEADLOCK TRUE\nINVARIANTS Linearizable ClosedOnce MutualExclusion\n"
            "PROPERTY Finishes\n")


def design(r, big):
    """The locking protocol itself, exhaustively."""
    D = bodyseq.D
    r.model_check("ConcImpl", CONC_CFG, timeout=3000,
                  defs=D(Threads={1, 2}, PerT=3 if big else 2, N=2 if big else 1, Defect="none"))
    if big:
        r.model_check("ConcImpl", CONC_CFG.replace("PROPERTY Finishes\n", ""), timeout=3000,
                      defs=D(Threads={1, 2, 3}, PerT=2, N=1, Defect="none"))
    for d in ("unlockFetch", "lateRef", "order", "keepLock") if big else ("unlockFetch", "order"):
        r.model_defect("ConcImpl", CONC_CFG, "Defect=" + d, defs=D(Threads={1, 2}, PerT=2, N=2, Defect=d))
