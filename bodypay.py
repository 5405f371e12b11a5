"""B13: payload constructors."""
from vlib import *
import bodyseq

CFG = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"


def check(r):
    big = r.tier == "thorough"
    r.tlc("PayloadTest", "INIT Init\nNEXT Judge\nCHECK_DEADLOCK FALSE\nINVARIANT SelfOK\n", workers=1,
          defs=dict(Mode=tla("self"), Depth="0", MaxP="0"), env={"TRACE_FILE": "/dev/null"})
    scs = []
    for depth, n in ((10, 400), (24, 300)):
        scs += r.generate("PayloadTest", CFG, args=["-simulate", "num=%d" % (n if not big else 10 * n), "-depth", str(2 * depth + 4),
                                                    "-seed", str(r.seed * 53 + depth)],
                          defs=dict(Mode=tla("gen"), Depth=str(depth), MaxP="8"))
    p = r.write_lines("pay.ndjson", scs)
    out = r.path("paytrace.ndjson")
    r.drive("bodydrv", ["-mode", "payload", "-in", p, "-out", out])
    tr = r.read_lines(out)
    rej = r.validate("PayloadTest", tr, CFG + "CONSTANTS\n Mode = \"trace\"\n Depth = 0\n MaxP = 0\n", "payload", chunk=1500)
    r.judge(rej, tr, "payload")
    kinds = {}
    for t in tr:
        for e in t["ev"]:
            kinds[e["op"]] = kinds.get(e["op"], 0) + 1
    r.extra["bodies_by_constructor"] = kinds
    return r.finish(assumptions=[
        "values: nested arrays and objects up to depth 4, strings with control, markup, quote, non-ASCII and line-separator characters, ints, floats; strings up to 70001 bytes",
        "protobuf: well-known wrapper, duration and list messages"])
