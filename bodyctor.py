"""B14: constructing a Body from a Reader; every configuration."""
from vlib import *
import bodyseq


def check(r):
    big = r.tier == "thorough"
    sizes = {0, 1, 3} if not big else {0, 1, 2, 3, 5, 8}
    scs = r.generate("BodyCtor", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Sane\n",
                     defs=dict(Mode=tla("gen"), Sizes=tla(sizes)), workers=1)
    p = r.write_lines("ctor.ndjson", scs)
    out = r.path("ctortrace.ndjson")
    r.drive("bodydrv", ["-mode", "ctor", "-in", p, "-out", out])
    tr = r.read_lines(out)
    if len(tr) < len(scs) + 6 + 84:
        raise CheckError("outcomes missing")
    rej = r.validate("BodyCtor", tr, "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Mode = \"trace\"\n Sizes = {}\n", "constructor")
    r.judge(rej, tr, "constructor", extra=lambda t: t["out"])
    r.extra["configurations"] = len(scs)
    r.events = len(tr)
    # families over constructed bodies: interfaces of copies, declared lengths, whole histories
    envs, ops, maxb, depth, kw = ("walk", ["read", "seek", "readat", "copy", "len", "close"], 3, 10,
                                  dict(ks=(0, 1, 2, 3), ns=(0, 1, 3), offs=(-1, 0, 1, 2), ms=(-1,)))
    ws = bodyseq.gen(r, envs, ops, maxb, depth, walk=800 if not big else 8000, **kw)
    for s in ws:
        s["scale"] = r.rng.choice(bodyseq.SCALES)
    bodyseq.drive_and_judge(r, ws, "random-walk")
    return r.finish(assumptions=bodyseq.ASSUME)
