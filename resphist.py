"""R01..R06: histories of Builders and Responses."""
from vlib import *

CFG = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
THEMES = {"R01": ["build", "build", "wide", "all"], "R02": ["alias", "alias", "wide", "par"], "R03": ["serve", "build", "page", "par"],
          "R04": ["serve", "serve", "wide", "par"], "R05": ["push", "push", "serve", "pushmany"], "R06": ["page", "page", "all"]}


IMPL = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT ValueSemantics\n"


def design(r, big):
    d = lambda x, n: dict(Design=tla(x), MaxOps=str(n), Vals=tla({1, 2}), Cap="2")
    r.model_check("ResponseImpl", IMPL, defs=d("code", 6 if big else 4), timeout=3000)
    for x in ("shallowCopy", "shareMap", "shallowWith", "keepWith", "noReset", "serveShare"):
        r.model_defect("ResponseImpl", IMPL, x, defs=d(x, 4))


def scenarios(r, big, prop):
    scs = []
    n = 6000 if big else 700
    for i, th in enumerate(THEMES[prop] + (["all", "alias"] if big else [])):
        d = dict(Depth="60" if th in ("wide", "pushmany") else "26" if i % 2 else "14", NB="2", NR="3", NM="2", Theme=tla(th))
        got = r.generate("ResponseGen", CFG, defs=d,
                         args=["-simulate", "num=%d" % (n // 3 if th in ("wide", "pushmany") else n), "-depth", "130", "-seed", str(r.seed * 53 + i * 7 + 1)])
        for s in got:
            s.update(nb=2, nr=3, nm=2)
        scs += got
    return scs


def histories(r, scs, what, race=False):
    p = r.write_lines("resp.ndjson", scs)
    tr = r.drive_traces("respdrv", ["-mode", "resp", "-in", p, "-seed", r.seed], len(scs), race=race,
                        env={"GORACE": "exitcode=0 halt_on_error=0"})
    rej = r.validate("ResponseTrace", tr, CFG, what, chunk=2500)
    r.judge(rej, tr, what)
    return tr


def check(r):
    big = r.tier == "thorough"
    if r.prop in ("R01", "R02"):
        design(r, big)
    tr = histories(r, scenarios(r, big, r.prop), "histories")
    if r.prop == "R02" or big:
        scs = r.generate("ResponseGen", CFG, defs=dict(Depth="16", NB="2", NR="3", NM="2", Theme=tla("par")),
                         args=["-simulate", "num=%d" % (4000 if big else 600), "-depth", "60", "-seed", str(r.seed * 59)])
        for s in scs:
            s.update(nb=2, nr=3, nm=2)
        tr += histories(r, scs, "concurrent serves under the race detector", race=True)
    ops = {}
    for t in tr:
        for e in t["ev"]:
            ops[e["op"]] = ops.get(e["op"], 0) + 1
    r.extra["calls_by_operation"] = ops
    if r.prop == "R03":
        import respe2e
        respe2e.whole(r, big)
    return r.finish(assumptions=["the caller keeps its part: headers of a Response are not modified, bodies handed over are not used any more"])
