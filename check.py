#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property for /repo's working tree."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    r = vlib.Run(prop, tier, seed)
    try:
        mod = __import__(MODULES[prop])
        rc = mod.check(r)
    except vlib.CheckError as e:
        print("check error: %s" % e, file=sys.stderr)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        r.close()
    sys.exit(rc)


MODULES = {"B0%d" % i: "bodyseq" for i in range(1, 10)}
MODULES.update({"R0%d" % i: "resphist" for i in range(1, 7)})
MODULES["R07"] = "headers"
MODULES["M01"] = "mockscript"
MODULES.update({"H01": "hadaptor", "H02": "hadaptor"})
MODULES["H03"] = "respe2e"
MODULES.update({"W01": "respw", "W02": "respw", "W03": "respw"})
MODULES.update({"B10": "bodyconc", "B11": "bodymem", "B12": "bodygate", "B13": "bodypay", "B14": "bodyctor"})

# property -> (technique, level_note)
HIST = ("TLA+ specification (%s) model-checked with TLC; histories of the real code, driven by scenarios generated from it, validated by TLC (%s)")
LIM = ("The specification is checked exhaustively within small constants, and deliberately broken variants of it are refuted; every recorded "
       "execution of the real code (transition-covering scenarios and random walks, sizes scaled to the 64 KiB block boundary) must be a "
       "behaviour it allows. Executions not generated are not covered. Trusts TLC, the driver's recording and the scripted source.")


def _note(core, trace, more=""):
    return (HIST % (core, trace), LIM + (" " + more if more else ""))


NOTES = {"*": _note("BodyCore, Body", "BodyTrace")}
NOTES["B10"] = _note("BodyCore, ConcImpl, BufferedImpl, RandImpl", "BodyLin: linearizability of recorded concurrent histories", "Schedules are those of the Go scheduler under stress, with scheduling points around the code's mutexes and the race detector; not all interleavings.")
NOTES["B11"] = _note("BodyMem", "BodyMem on observed heaps", "Memory is observed through finalizers after forced collections and heap sizes.")
NOTES["B12"] = _note("BodyGate, BufferedImpl", "BodyGate on observed blocking", "A call counts as blocked when it has not returned although the source's gate is the only thing it could wait for.")
NOTES["B13"] = _note("Payload", "PayloadTest: cases generated from it")
NOTES["B14"] = _note("BodyCtor", "BodyCtor on observed constructor calls")
for _p in ("R01", "R02", "R03", "R04", "R05", "R06"):
    NOTES[_p] = _note("ResponseCore, ResponseImpl", "ResponseTrace")
NOTES["R07"] = _note("HeaderCore, HeaderLaws", "HeaderTrace")
NOTES["R03"] = _note("ResponseCore, ResponseImpl, E2ECore", "ResponseTrace, E2ETrace", "Client views are recorded over loopback connections (HTTP/1.0, HTTP/1.1, HTTP/2).")
for _p in ("W01", "W02", "W03"):
    NOTES[_p] = _note("WriterCore, Writer", "WriterTrace")
for _p in ("H01", "H02"):
    NOTES[_p] = _note("AdaptorCore", "AdaptorTrace")
NOTES["H03"] = _note("Framing, E2ECore", "E2ETrace", "Client views are recorded over loopback connections (HTTP/1.0, HTTP/1.1, HTTP/2 over TLS).")
NOTES["M01"] = _note("MockCore", "MockTrace; MockLin for concurrent callers")

if __name__ == "__main__":
    main()
