"""B12: a Read waits only for what it asked for."""
from vlib import *
import bodyseq

GEN = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
VAL = GEN + "CONSTANTS\n Mode = \"trace\"\n MaxB = 3\n Depth = 0\n Total = 0\n Held = FALSE\n"


def run(r, scs, what):
    p = r.write_lines("gate.ndjson", scs)
    out = r.path("gatetrace.ndjson")
    r.drive("bodydrv", ["-mode", "gate", "-in", p, "-out", out, "-seed", r.seed, "-hang", "6s"], timeout=850)
    tr = sorted(r.read_lines(out), key=lambda t: t["id"])
    rej = r.validate("BodyGate", tr, VAL, what)
    n = len(r.violations)
    r.judge(rej, tr, what)
    for v in r.violations[n:]:
        if "held" in v[0]:
            v[2]["finding"] = "lagging-copy-waits"


def check(r):
    big = r.tier == "thorough"
    bodyseq.model_buffered(r, big, want=("prefetch",))
    scs = []
    for depth, n in ((8, 400 if not big else 6000), (14, 400 if not big else 6000)):
        scs += r.generate("BodyGate", GEN, args=["-simulate", "num=%d" % n, "-depth", str(3 * depth + 4), "-seed", str(r.seed * 37 + depth)],
                          defs=dict(Mode=tla("gen"), MaxB="3", Depth=str(depth), Total="7", Held=tla(False)))
    scs = [s for s in scs if any(o["op"] == "read" for o in s["ops"])]
    scs = r.sample(scs, 500 if not big else 8000)
    for s in scs:
        s["scale"] = r.rng.choice([1, 1, 1, 100, 16384, 32768, 65536])
        s["chunk"] = r.rng.choice([0, 0, 0, 1])
        s["eofw"] = r.rng.random() < 0.3
    run(r, scs, "gated source")
    # one copy waits in the source, another one reads what was obtained before
    held = [{"L": L, "nb": 3, "total": 7, "scale": k, "chunk": 0, "eofw": False, "ops": [
        {"op": "supply", "n": 3}, {"op": "copy", "b": 1, "c": 2}, {"op": "read", "b": 1, "k": 3},
        {"op": "read", "b": 1, "k": 2}, {"op": "read", "b": 2, "k": 2}]} for L in (-1, 7) for k in (1, 65536)]
    run(r, held, "copy behind a waiting one")
    return r.finish(assumptions=bodyseq.ASSUME + [
        "a Read that has not returned 6 s after the source supplied all it asked for is taken to be waiting"])
