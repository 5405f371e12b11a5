"""H03, and the client's side of R03: real connections over loopback."""
from vlib import *

CFG = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
FINDINGS = {"cut_unknown_http10": "cut-unknown-length-http10", "cut_unknown_http11": "cut-unknown-length-http11",
            "cut_unknown_http2": "cut-unknown-length-http2", "cut_found_early": "cut-found-before-build"}


def requests(r, n, depth, failures, what, race=False):
    scs = r.generate("E2EGen", CFG, defs=dict(Depth=str(depth), Failures=tla(failures)),
                     args=["-simulate", "num=%d" % n, "-depth", str(depth + 3), "-seed", str(r.seed * 71 + depth + 7 * failures)])
    p = r.write_lines("e2e.ndjson", scs)
    out = r.path("e2e-tr.ndjson")
    d = r.drive("respdrv", ["-mode", "e2e", "-in", p, "-out", out, "-seed", r.seed], race=race, ok=(0, 2), timeout=1500,
                env={"GORACE": "exitcode=0 halt_on_error=0", "TMPDIR": r.dir})
    tr = r.read_lines(out)
    if d.returncode == 2:
        m = re.search(r"^(fatal error|panic|runtime: |SIG).*", d.stderr, re.M)
        if not m:
            raise CheckError("driver exited 2:\n" + d.stderr[-3000:])
        r.violations.append(({r.prop}, "%s: the server crashed: %s" % (what, m.group(0)),
                             {"what": what, "scenario": scs[tr[-1]["id"] // 100] if tr else scs[0], "crash": d.stderr[:6000]}))
    elif len(tr) != sum(len(s["qs"]) for s in scs):
        raise CheckError("requests without a record")
    if race and "DATA RACE" in d.stderr:
        r.violations.append(({r.prop}, "%s: data race" % what, {"race_report": d.stderr[:6000]}))
    rej = r.validate("E2ETrace", tr, CFG, what)
    k = len(r.violations)
    r.judge(rej, tr, what, extra=lambda t: {"scenario": scs[t["id"] // 100 - 1]})
    for v in r.violations[k:]:
        for l, f in FINDINGS.items():
            if l in v[0]:
                v[2]["finding"] = f
    seen = r.extra.setdefault("requests", {})
    for t in tr:
        q, o = t["q"], t["ev"][0]
        key = "HTTP/%s via %s: %s" % (q["proto"], q["via"], "cut short" if q["fail"] != "none" else "whole")
        seen[key] = seen.get(key, 0) + 1
    return tr


ASSUME = ["server and client are those of net/http (HTTP/1.0, HTTP/1.1 and HTTP/2 over TLS), on loopback",
          "a request that takes more than 20 s is taken to hang"]


def whole(r, big):
    requests(r, 3000 if big else 250, 6, False, "whole responses over connections")
    requests(r, 400 if big else 40, 6, False, "whole responses under the race detector", race=True)


def check(r):
    big = r.tier == "thorough"
    r.model_check("Framing", "SPECIFICATION Spec\nINVARIANTS Honest Whole\nCHECK_DEADLOCK FALSE\n", defs=dict(
        Protos=tla({"1.0", "1.1"}), Lengths=tla({"known"}), MaxN="4", Buf="2", Abort=tla(False)))
    r.model_check("Framing", "SPECIFICATION Spec\nINVARIANTS Honest Whole\nCHECK_DEADLOCK FALSE\n", defs=dict(
        Protos=tla({"1.1"}), Lengths=tla({"known", "unknown"}), MaxN="4", Buf="2", Abort=tla(True)))
    r.model_defect("Framing", "SPECIFICATION Spec\nINVARIANTS Honest Whole\nCHECK_DEADLOCK FALSE\n", "unknown length, no abort", defs=dict(
        Protos=tla({"1.1"}), Lengths=tla({"unknown"}), MaxN="4", Buf="2", Abort=tla(False)))
    r.model_defect("Framing", "SPECIFICATION Spec\nINVARIANTS Honest Whole\nCHECK_DEADLOCK FALSE\n", "HTTP/1.0, unknown length", defs=dict(
        Protos=tla({"1.0"}), Lengths=tla({"unknown"}), MaxN="4", Buf="2", Abort=tla(True)))
    requests(r, 4000 if big else 350, 4, True, "responses cut short")
    requests(r, 1000 if big else 100, 5, False, "whole responses over connections")
    return r.finish(assumptions=ASSUME)
