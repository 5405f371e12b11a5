"""B11: what a streaming body keeps in memory."""
from vlib import *
import bodyseq


def check(r):
    big = r.tier == "thorough"
    bodyseq.model_buffered(r, big, want=("noTrimOnClose", "noCompact"))
    units = 24 if not big else 40
    defs = dict(Mode=tla("gen"), MaxB="3", Depth="14", Units=str(units), Reads=tla({1, 4, 8} if not big else {1, 3, 8, 16}))
    scs = r.generate("BodyMem", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n",
                     args=["-simulate", "num=%d" % (220 if not big else 4000), "-depth", "18", "-seed", str(r.seed * 17 + 3)], defs=defs)
    scs = r.sample([s for s in scs if len(s["ops"]) >= 5], 90 if not big else 1500)
    for s in scs:
        s["units"] = units
        s["chunk"] = r.rng.choice([0, 0, 1000, 70000])
        s["length"] = r.rng.random() < 0.4
        s["kind"] = r.rng.choice(["stream"] * 4 + ["bytes", "string", "json"])
    p = r.write_lines("mem.ndjson", scs)
    out = r.path("memtrace.ndjson")
    r.drive("bodydrv", ["-mode", "mem", "-in", p, "-out", out], timeout=3000)
    tr = r.read_lines(out)
    rej = r.validate("BodyMem", tr, "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Mode = \"trace\"\n MaxB = 3\n Depth = 0\n Units = 0\n Reads = {}\n", "heap")
    r.judge(rej, tr, "live heap")
    tr = [t for t in tr if t["scn"]["kind"] == "stream"]
    r.extra["largest_live_heap_KiB"] = max(e["heap"] for t in tr for e in t["ev"])
    r.extra["largest_heap_beyond_needed_KiB"] = max(beyond(t) for t in tr)
    return r.finish(assumptions=bodyseq.ASSUME + [
        "retention is judged up to twice the needed span plus 1 MiB, on streams of %d MiB" % units])


def beyond(t):
    pos, opn, far, worst = {1: 0}, {1}, 0, 0
    for e in t["ev"]:
        if e["op"] == "read":
            pos[e["b"]] += e["kib"]
            far = max(far, pos[e["b"]])
        elif e["op"] == "copy":
            pos[e["c"]] = pos[e["b"]]
            opn.add(e["c"])
        elif e["op"] == "close":
            opn.discard(e["b"])
        need = far - min(pos[b] for b in opn) if opn else 0
        worst = max(worst, e["heap"] - need)
    return worst
