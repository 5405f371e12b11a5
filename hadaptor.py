"""H01, H02: the Adaptor."""
from vlib import *

CFG = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"


def histories(r, n, depth, par, what, race=False):
    scs = r.generate("AdaptorGen", CFG, defs=dict(Depth=str(depth), Par=str(par)),
                     args=["-simulate", "num=%d" % n, "-depth", str(depth + 3), "-seed", str(r.seed * 67 + par)])
    p = r.write_lines("adaptor.ndjson", scs)
    tr = r.drive_traces("respdrv", ["-mode", "adaptor", "-in", p, "-seed", r.seed], len(scs), race=race,
                        env={"GORACE": "exitcode=0 halt_on_error=0"})
    rej = r.validate("AdaptorTrace", tr, CFG, what, chunk=2500)
    r.judge(rej, tr, what)
    return tr


MODEL = CFG + "INVARIANTS Judged OneStatus NothingEscapes NeverAhead Sensible\n"
DEFECTS = ("labelBeforeStatus", "doubleStatus", "sharedLabel", "quietLate", "reportTwice", "plannedCode", "plannedBytes",
           "lostUpdate", "noRecover", "okOnly")


def design(r, big):
    d = lambda x, n: dict(Design=tla(x), N=str(n))
    r.model_check("Adaptor", MODEL, defs=d("code", 3 if big else 2), timeout=3000)
    for x in DEFECTS:
        r.model_defect("Adaptor", MODEL, x, defs=d(x, 2))


def check(r):
    big = r.tier == "thorough"
    design(r, big)
    tr = histories(r, 8000 if big else 800, 5, 1, "requests one after another")
    tr += histories(r, 1500 if big else 150, 4, 6, "concurrent requests")
    tr += histories(r, 800 if big else 80, 3, 8, "concurrent requests under the race detector", race=True)
    r.extra["requests"] = sum(len(e["qs"]) for t in tr for e in t["ev"])
    r.extra["failed_requests"] = sum(len(e["reports"]) for t in tr for e in t["ev"])
    return r.finish(assumptions=["OnPanic itself does not panic", "writers do not panic when the Adaptor sends its own 500",
                                 "received bytes are not measured by the Adaptor (a documented FIXME), only that they are accounted consistently"])
