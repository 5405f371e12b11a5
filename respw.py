"""W01..W03: the wrapping writer."""
from vlib import *

CFG = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
INV = CFG + "INVARIANTS OneStatus StatusFirst StatusTrue StatusRange BytesTrue NoBodySent SawTrue\n"


def check(r):
    big = r.tier == "thorough"
    r.model_check("Writer", INV, defs=dict(MaxCalls="4" if big else "2", Vals=tla({99, 200, 204})), timeout=3000)
    scs = r.generate("WriterGen", CFG + "VIEW View\nACTION_CONSTRAINT EmitTransition\n",
                     defs=dict(Depth="3", WalkMode="FALSE", AllCaps="FALSE"))
    scs = scs if big else r.stratify(scs, 3000, lambda s: (str(s["ops"][-1]), s["env"]["head"], len(s["ops"])))
    scs += r.generate("WriterGen", CFG, args=["-simulate", "num=%d" % (12000 if big else 1200), "-depth", "20", "-seed", str(r.seed * 41 + 5)],
                      defs=dict(Depth="9", WalkMode="TRUE", AllCaps="TRUE"))
    for s in scs:
        s["scale"] = r.rng.choice([1, 1, 1, 9, 9000, 32769])
    # vast amounts of data
    vast = r.generate("WriterGen", CFG, args=["-simulate", "num=%d" % (400 if big else 60), "-depth", "20", "-seed", str(r.seed * 43 + 7)],
                      defs=dict(Depth="6", WalkMode="TRUE", AllCaps="TRUE"))
    for s in vast:
        s["unit"] = r.rng.choice([1 << 29, (1 << 30) + 1, (1 << 31) - 1])
        s["ops"] += [dict(op="write", k=3), dict(op="readfrom", k=2, f=-1), dict(op="copy", k=1, f=-1)][:r.rng.randint(0, 3)]
    scs += vast
    p = r.write_lines("w.ndjson", scs)
    tr = r.drive_traces("respdrv", ["-mode", "writer", "-in", p], len(scs))
    rej = r.validate("WriterTrace", tr, CFG, "writer")
    r.judge(rej, tr, "wrapping writer")
    ops = {}
    for t in tr:
        for e in t["ev"]:
            ops[e["op"]] = ops.get(e["op"], 0) + 1
    r.extra["calls_by_operation"] = ops
    return r.finish(assumptions=["the wrapped writer obeys the io.Writer and io.ReaderFrom contracts", "one goroutine uses a writer at a time (as net/http requires)"])
