"""R07: the Builder's header helpers against HeaderCore."""
from vlib import *

CFG = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
LAWS = "SPECIFICATION LSpec\nCHECK_DEADLOCK FALSE\nINVARIANTS ReadsBack Distinguished InvalidRefused Base64Shape Base64Back\n"


def check(r):
    big = r.tier == "thorough"
    r.model_check("HeaderLaws", LAWS, defs={"Depth": "0"}, timeout=1200)
    n = 30000 if big else 2500
    scs = r.generate("HeaderGen", CFG, args=["-simulate", "num=%d" % n, "-depth", "14", "-seed", str(r.seed * 53 + 11)],
                     defs={"Depth": "8"}, timeout=1800)
    p = r.write_lines("h.ndjson", scs)
    tr = r.drive_traces("respdrv", ["-mode", "header", "-in", p, "-seed", r.seed], len(scs))
    rej = r.validate("HeaderTrace", tr, CFG, "header helpers")
    r.judge(rej, tr, "header helpers")
    ops = {}
    for t in tr:
        for e in t["ev"]:
            k = e["op"] + ("/refused" if e["panic"] else "")
            ops[k] = ops.get(k, 0) + 1
    r.extra["calls_by_operation"] = ops
    return r.finish(assumptions=["entity tags and digest algorithms are made of characters their syntax allows",
                                 "header names are canonical"])
