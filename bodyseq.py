"""Checks of the sequential Body properties (B01..B09): design models, scenario
generation, execution on the real package, trace validation."""
from vlib import *

TRACE_CFG = "SPECIFICATION TraceSpec\nINVARIANT TypeOK\nCHECK_DEADLOCK FALSE\n"
BODY_CFG = ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
            "INVARIANTS Faithful EofMeansEnd ErrorInPlace LenSound LenDiscovered LenTotal ClosedOnce ReadAtSound\n"
            "PROPERTIES Independent CopyIsEqual ClosedForever TermSticky\n")
BUF_CFG = ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
           "INVARIANTS Refines Window RefcntExact Retention Compact Prefetch NoWaiting\n")
RAND_CFG = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Refines LengthSound OffsetsAgree\n"

ALLOPS = ["read", "copy", "close", "seek", "readat", "writeto", "len", "unwrap", "iocopy"]


def D(**k):
    return {a: tla(b) for a, b in k.items()}


# ---- design models ------------------------------------------------------------
def model_body(r, kinds, big=False):
    for kind in kinds:
        if kind == "mem":
            d = D(MaxB=3 if big else 2, Ks={0, 1, 2}, Offs={-2, -1, 0, 1, 2} if big else {-1, 0, 1}, Ms={-1, 0, 1},
                  Ns={0, 1, 2} if big else {0, 2}, Kinds={"bytes", "empty", "closed"})
        elif kind == "stream":
            d = D(MaxB=2, Ks={0, 1, 2} if big else {1, 2}, Offs={0}, Ms={-1}, Ns={0, 1, 2, 3} if big else {0, 2}, Kinds={"stream"})
        else:
            d = D(MaxB=2, Ks={0, 1, 2} if big else {1}, Offs={-1, 0, 1, 2} if big else {-1, 1}, Ms={-1},
                  Ns={0, 1, 2} if big else {1}, Kinds={"at"})
        r.model_check("Body", BODY_CFG, defs=d, timeout=3000)


def model_buffered(r, big=False, want=("trimAlone",)):
    r.model_check("BufferedImpl", BUF_CFG, timeout=3000,
                  defs=D(MaxB=3 if big else 2, Ks={0, 1, 2, 3} if big else {0, 1, 3}, Ns={0, 1, 3, 4, 5} if big else {0, 1, 3},
                         BS=2, Chunks={0, 1, 2} if big else {0, 1}, Defect="none"))
    for d in (("prefetch", "trimOne", "trimAlone", "eofEarly", "noRef", "noTrimOnClose", "noCompact", "fullBlock") if big else want):
        r.model_defect("BufferedImpl", BUF_CFG, "Defect=" + d,
                       defs=D(MaxB=2, Ks={0, 1, 2, 3}, Ns={0, 1, 3, 4}, BS=2, Chunks={0, 1}, Defect=d))


def model_rand(r, big=False):
    r.model_check("RandImpl", RAND_CFG, timeout=3000,
                  defs=D(MaxB=2, Ks={0, 1, 2, 3} if big else {1, 2}, Offs={-1, 0, 1, 2} if big else {-1, 1},
                         Ns={0, 1, 2, 3} if big else {2}, Chunks={0, 1}, Kinds={"at", "seek"}, Defect="none"))
    for d in (("noSeek", "shortReadAt", "eofOnShort", "truncate", "readAtMoves", "readAtLearns", "noClamp", "keepErr", "negative")
              if big else ("noSeek",)):
        r.model_defect("RandImpl", RAND_CFG, "Defect=" + d,
                       defs=D(MaxB=2, Ks={0, 1, 2, 3}, Offs={-1, 0, 1, 2}, Ns={0, 1, 3}, Chunks={0, 1},
                              Kinds={"at", "seek"}, Defect=d))


# ---- generation -----------------------------------------------------------------
def gen(r, envs, ops, maxb, depth, ks=(0, 1, 2, 3), offs=(0,), ms=(0,), ns=(0, 1, 3), walk=None, lifted=False):
    defs = D(MaxB=maxb, Depth=depth, Ks=set(ks), Offs=set(offs), Ms=set(ms), Ns=set(ns), OpSet=set(ops),
             EnvSet=envs, Lifted=lifted, WalkMode=bool(walk))
    cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
    if walk:
        return r.generate("BodyGen", cfg, args=["-simulate", "num=%d" % walk, "-depth", str(2 * depth + 3),
                                                "-seed", str(r.seed * 101 + 7)], defs=defs, timeout=1200)
    return r.generate("BodyGen", cfg + "VIEW View\nACTION_CONSTRAINT EmitTransition\n", defs=defs, timeout=1200)


SMALL = [1]
SCALES = [1, 1, 1, 16384, 21845, 32768, 65536]

# property -> (design models, BFS configurations, walk configuration)
#   BFS: (envs, ops, maxb, depth, extra arguments, quick sample)
CONF = {
    "B01": (["mem", "stream", "at"], ["buffered"],
            [("plain", ["read", "iocopy"], 1, 5, {}, 2500)],
            ("plain", ["read", "iocopy", "len", "copy", "close"], 2, 12, dict(ks=(0, 1, 2, 3, 5), ns=(0, 1, 3, 5)))),
    "B02": (["stream", "at"], ["buffered", "rand"],
            [("few", ["read", "copy", "close"], 3, 5, dict(ns=(0, 3)), 2500)],
            ("walk", ALLOPS, 4, 16, dict(ks=(0, 1, 2, 3, 5), ns=(1, 3, 5), offs=(-2, -1, 0, 1, 2), ms=(-1, 0, 1, 2)))),
    "B03": (["mem", "stream", "at"], ["buffered", "rand"],
            [("plain", ["read", "len", "seek", "writeto", "iocopy"], 1, 4,
              dict(offs=(-1, 0, 1, 2), ms=(-1, 0, 1), ks=(0, 1, 2, 3)), 1500),
             ("few", ["read", "len", "copy", "close"], 2, 5, dict(ks=(1, 3)), 1000),
             ("failknown", ["read", "len", "copy"], 2, 4, dict(ks=(1, 4), ns=(1, 3)), 800)],
            ("walk", ALLOPS + ["len", "read"], 3, 14,
             dict(ks=(0, 1, 2, 3, 5), ns=(0, 1, 3, 5), offs=(-2, -1, 0, 1, 2), ms=(-1, 0, 1, 2)))),
    "B04": (["mem", "stream"], ["buffered", "rand"],
            [("closers", ["read", "copy", "close", "unwrap"], 3, 6, dict(ks=(1, 4), ns=(0, 2)), 3000)],
            ("closers", ["read", "copy", "close", "unwrap", "seek", "readat"], 5, 20,
             dict(ks=(0, 1, 2), ns=(0, 1, 3), offs=(0, 1)))),
    "B05": (["mem", "stream", "at"], [],
            [("closers", ALLOPS, 2, 4, dict(ks=(0, 1), ns=(0, 2), offs=(-1, 0, 1), ms=(-1, 0)), 3000)],
            ("closers", ALLOPS, 3, 16, dict(ks=(0, 1, 2), ns=(0, 1, 3), offs=(-1, 0, 1), ms=(-1, 0)))),
    "B06": (["mem", "at"], ["rand"],
            [("seekable", ["seek", "read"], 1, 4, dict(ks=(1, 3), offs=(-3, -2, -1, 0, 1, 2, 3, 4)), 2500),
             ("failrand", ["seek", "read"], 1, 4, dict(ks=(1, 3), ns=(1, 3), offs=(-2, -1, 0, 1, 2)), 1000)],
            ("seekwalk", ["seek", "read", "copy", "len", "close"], 2, 12,
             dict(ks=(0, 1, 2, 3), ns=(0, 1, 3, 5), offs=(-4, -2, -1, 0, 1, 2, 3)))),
    "B07": (["mem", "at"], ["rand"],
            [("seekable", ["readat", "len", "copy", "read"], 2, 3, dict(ks=(1, 4), offs=(0, 1, 2, 3)), 700),
             ("seekable", ["readat", "read"], 1, 3, dict(ks=(0, 1, 2, 4), offs=(-1, 0, 1, 2, 3, 4)), 1500),
             ("failing", ["readat", "read"], 1, 3, dict(ks=(0, 1, 2, 4), offs=(-1, 0, 1, 2, 3, 4)), 1500)],
            ("seekable", ["readat", "read", "seek", "copy", "len", "close"], 3, 14,
             dict(ks=(0, 1, 2, 3), ns=(0, 1, 3, 5), offs=(-1, 0, 1, 2, 3)))),
    "B08": (["mem"], [],
            [("writable", ["writeto", "read", "seek", "copy", "close", "iocopy"], 2, 4,
              dict(ks=(0, 1, 3), offs=(-1, 0, 1, 2), ms=(-1, 0, 1, 2, 3)), 1500),
             ("few", ["iocopy", "read", "copy", "close"], 2, 4, dict(ks=(1,)), 700)],
            ("writable", ["writeto", "read", "seek", "copy", "len", "iocopy", "close"], 3, 12,
             dict(ks=(0, 1, 2), ns=(0, 1, 3, 5), offs=(-1, 0, 1, 2), ms=(-1, 0, 1, 2, 3)))),
    "B09": (["stream", "at"], ["rand", "buffered"],
            [("failing", ["read", "copy", "iocopy"], 2, 4, dict(ks=(1, 2, 4), ns=(0, 1, 3)), 3000)],
            ("failing", ALLOPS, 3, 14, dict(ks=(0, 1, 2, 3, 5), ns=(1, 3, 5), offs=(-2, -1, 0, 1, 2), ms=(-1,)))),
}

ASSUME = [
    "sources obey the io contracts (Read/ReadAt return at most the requested bytes, Stat reports the size that FromReader is to use)",
    "sources hold up to 6 MB; positions beyond that, up to 2^63 - 70000, are exercised at either end of huge sources",
    "a source that keeps returning (0, nil) forever is out of scope",
]


def drive_and_judge(r, scs, what, probe="read"):
    p = r.write_lines("scn.ndjson", scs)
    tr = r.drive_traces("bodydrv", ["-mode", "seq", "-in", p, "-seed", r.seed, "-probe", probe], len(scs), timeout=1500)
    rej = r.validate("BodyTrace", tr, TRACE_CFG, what)
    r.judge(rej, tr, what, extra=lambda t: {"scenario": scs[t["id"] - 1]})
    ops = {}
    for t in tr:
        for e in t["ev"]:
            k = e["op"] + "/" + e["e"]
            ops[k] = ops.get(k, 0) + 1
    tot = r.extra.setdefault("calls_by_operation_and_outcome", {})
    for k, v in ops.items():
        tot[k] = tot.get(k, 0) + v
    kinds = r.extra.setdefault("traces_by_kind", {})
    for t in tr:
        kinds[t["env"]["kind"]] = kinds.get(t["env"]["kind"], 0) + 1


LIFTS = [(1 << 31) - 2, (1 << 31) + 1, (1 << 32) - 1, (1 << 33) + 3, 1 << 40, 1 << 62, (1 << 63) - 70000]


def extremes(r, big):
    """Very high positions and lengths; very many copies; long histories; large sources."""
    n = 6 if big else 1
    out = []
    ops = {"B03": ("liftrand liftstream liftlow", ["read", "len", "seek", "copy", "close"]),
           "B06": ("liftrand", ["seek", "read", "len"]),
           "B07": ("liftrand liftlow", ["readat", "read", "len"]),
           "B01": ("liftrand liftlow", ["read", "iocopy"]),
           "B02": ("liftrand liftstream liftlow", ["read", "copy", "close"])}.get(r.prop)
    if ops:
        for envs in ops[0].split():
            st = envs != "liftrand"
            ws = gen(r, "liftrand" if envs == "liftlow" else envs, [o for o in ops[1] if not (st and o in ("seek", "iocopy"))], 2, 8, ks=(1, 2, 3), offs=(-2, -1, 0, 1, 2, 3),
                     ns=(1000,) if st else (1, 3), walk=150 * n, lifted=True)
            for w in ws:
                w["env"]["lift"] = str(r.rng.choice(LIFTS))
                w["env"]["low"] = envs == "liftlow"
            out.append((ws, "high positions"))
    if r.prop in ("B02", "B04"):
        ws = []
        for envs in ("onestream", "oneseek", "oneat"):
            ws += gen(r, envs, ["copy", "read"], 280, 560, ks=(1,), ns=(400,), walk=2 * n)
        for w in ws:
            w["scale"] = 1
        out.append((ws, "many copies"))
    envs, ops, maxb, depth, kw = CONF[r.prop][3]
    ws = gen(r, envs, ops, 6, 150, walk=10 * n, **dict(kw, ns=(30,)))
    out.append((ws, "long histories"))
    ws = gen(r, envs, ops, maxb, depth, walk=20 * n, **kw)
    for w in ws:
        w["scale"] = r.rng.choice([1 << 18, (1 << 20) - 1, 1 << 20])
    out.append((ws, "large sources"))
    return out


def check(r):
    big = r.tier == "thorough"
    models, impls, bfs, walk = CONF[r.prop]
    model_body(r, models, big)
    if "buffered" in impls:
        model_buffered(r, big)
    if "rand" in impls:
        model_rand(r, big)
    scs = []
    for envs, ops, maxb, depth, kw, n in bfs:
        xs = gen(r, envs, ops, maxb, depth, **kw)
        xs = r.sample(xs, n if not big else 40000)
        scs += xs
    for s in scs:
        s["scale"] = r.rng.choice(SCALES) if r.rng.random() < (0.5 if not big else 0.3) else 1
    # the same scenarios again at the block boundary, for the streaming bodies
    envs, ops, maxb, depth, kw = walk
    ws = gen(r, envs, ops, maxb, depth, walk=1500 if not big else 15000, **kw)
    for s in ws:
        s["scale"] = r.rng.choice(SCALES)
    ex = extremes(r, big)
    r.scenarios = len(scs) + len(ws) + sum(len(x) for x, _ in ex)
    r.extra["scenarios"] = {"one per transition of the state graph": len(scs), "random walks": len(ws)}
    for x, what in ex:
        r.extra["scenarios"][what] = r.extra["scenarios"].get(what, 0) + len(x)
    drive_and_judge(r, scs, "transition-covering")
    drive_and_judge(r, ws, "random-walk")
    for x, what in ex:
        drive_and_judge(r, x, what)
    if r.prop == "B04":
        import bodyconc
        bodyconc.conc(r, big, opset=("copy", "close", "unwrap"), n=None if big else 60)
    return r.finish(assumptions=ASSUME)
