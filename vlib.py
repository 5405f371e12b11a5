"""Shared machinery of the checks: building the drivers from /repo's working
tree, running TLC (model checking, generation, trace validation), reporting."""
import json, os, random, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")  # the variable is for trying out changes in a scratch copy
SPEC = os.path.join(VERIF, "spec")
GODIR = os.path.join(VERIF, "go", "zz_verif")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
GOBIN = "/opt/veriftools/go1.27.3/bin"


class CheckError(Exception):
    """The check could not give an answer (exit 2)."""


def goenv():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e["PATH"] = GOBIN + ":" + e.get("PATH", "")
    e.setdefault("GOPATH", "/root/go")
    e.setdefault("GOMODCACHE", "/root/go/pkg/mod")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", CGO_ENABLED=e.get("CGO_ENABLED", "1"))
    return e


class Run:
    """One run of one check."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.scenarios = 0
        self.notes = []
        self.samples = []
        self.violations = []   # (labels, description, replay dict)
        self.known = []
        self.other = {}        # labels of other properties seen
        self.bins = {}
        self.rng = random.Random(seed * 7919 + sum(map(ord, prop)))
        self.extra = {}

    def log(self, *a):
        print("[%s %5.1fs]" % (self.prop, time.time() - self.t0), *a, file=sys.stderr, flush=True)

    def path(self, name):
        return os.path.join(self.dir, name)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    # ---- build -------------------------------------------------------------
    def sched_overlay(self, repl):
        """Substitute package sync in the code being checked by one with
        scheduling points (go/zz_verif/vsync)."""
        for pkg in ("body", "response", "handler"):
            d = os.path.join(REPO, pkg)
            for f in sorted(os.listdir(d)) if os.path.isdir(d) else ():
                if not f.endswith(".go") or f.endswith("_test.go"):
                    continue
                src = open(os.path.join(d, f)).read()
                m = re.search(r'^import\s*(\([^)]*\)|[^\n(]*)', src, re.M)
                if not m:
                    continue
                imp = re.sub(r'(?:\b(\w+)\s+)?"sync"', lambda k: '%s "github.com/chronos-tachyon/morehttp/zz_verif/vsync"' % (
                    k.group(1) if k.group(1) not in (None, "import") else ("import sync" if k.group(1) else "sync")), m.group(0))
                if imp == m.group(0):
                    continue
                out = self.path("sched-%s-%s" % (pkg, f))
                with open(out, "w") as fh:
                    fh.write(src[:m.start()] + imp + src[m.end():])
                repl[os.path.join(d, f)] = out

    def build(self, name, race=False, sched=False):
        key = (name, race, sched)
        if key in self.bins:
            return self.bins[key]
        repl = {}
        if sched:
            self.sched_overlay(repl)
        for root, _, files in os.walk(GODIR):
            for f in files:
                full = os.path.join(root, f)
                repl[os.path.join(REPO, "zz_verif", os.path.relpath(full, GODIR))] = full
        ov = self.path("overlay.json")
        with open(ov, "w") as fh:
            json.dump({"Replace": repl}, fh)
        for f in ("go.mod", "go.sum"):
            shutil.copy(os.path.join(REPO, f), self.path(f))
        out = self.path(name + ("-race" if race else "") + ("-sched" if sched else ""))
        cmd = ["go", "build", "-modfile", self.path("go.mod"), "-overlay", ov, "-o", out]
        if race:
            cmd.append("-race")
        cmd.append("./zz_verif/" + name)
        r = subprocess.run(cmd, cwd=REPO, env=goenv(), capture_output=True, text=True, timeout=600)
        if r.returncode != 0 and sched:
            # the code uses something of package sync that vsync lacks
            self.notes.append("built without scheduling points: " + r.stderr[-500:])
            self.bins[key] = self.build(name, race, False)
            return self.bins[key]
        if r.returncode != 0:
            raise CheckError("building the driver failed:\n" + r.stdout + r.stderr)
        self.log("built", name, "race" if race else "")
        self.bins[key] = out
        return out

    def drive(self, name, args, race=False, sched=False, timeout=600, env=None, ok=(0,)):
        b = self.build(name, race, sched)
        e = goenv()
        if env:
            e.update(env)
        r = subprocess.run([b] + [str(a) for a in args], cwd=self.dir, env=e,
                           capture_output=True, text=True, timeout=timeout, errors="replace")
        if r.returncode not in ok:
            raise CheckError("driver %s %s exited %d:\n%s" % (name, args, r.returncode, (r.stdout + r.stderr)[-4000:]))
        return r

    # ---- TLC ---------------------------------------------------------------
    def tlc(self, module, cfg, env=None, workers=8, args=(), timeout=900, expect_ok=True, mem="6g", defs=None):
        """defs: constant -> TLA+ expression, put into a generated wrapper module
        (configuration files cannot express negative numbers, among others)."""
        meta = tempfile.mkdtemp(prefix="tlc-", dir=self.dir)
        main = os.path.join(SPEC, module + ".tla")
        if defs:
            name = module + "Run"
            with open(os.path.join(meta, name + ".tla"), "w") as fh:
                fh.write("---- MODULE %s ----\nEXTENDS %s\n" % (name, module))
                for k, v in defs.items():
                    fh.write("Run_%s == %s\n" % (k, v))
                fh.write("====\n")
            cfg += "\nCONSTANTS\n" + "".join("  %s <- Run_%s\n" % (k, k) for k in defs)
            main = os.path.join(meta, name + ".tla")
        cfgp = os.path.join(meta, module + ".cfg")
        with open(cfgp, "w") as fh:
            fh.write(cfg)
        e = dict(os.environ)
        if env:
            e.update(env)
        cmd = ["java", "-Xmx" + mem, "-Xss64m", "-XX:+UseParallelGC", "-DTLA-Library=" + SPEC, "-cp", JAR, "tlc2.TLC",
               "-noTE", "-metadir", os.path.join(meta, "states"), "-workers", str(workers), "-config", cfgp]
        cmd += list(args) + [main]
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout, errors="replace")
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on %s" % module)
        out = r.stdout
        shutil.rmtree(meta, ignore_errors=True)
        if expect_ok and (r.returncode != 0 or "Error:" in out):
            i = out.find("Error:")
            raise CheckError("TLC failed on %s (exit %d):\n%s" % (module, r.returncode, out[max(0, i - 200):i + 6000] + r.stderr[-1000:]))
        return out

    @staticmethod
    def counts(out):
        m = re.findall(r"^(\d+) states generated, (\d+) distinct states found", out, re.M)
        return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)

    def model_check(self, module, cfg, **kw):
        """Exhaustive check of a design model: a failure is an error of the check."""
        out = self.tlc(module, cfg, **kw)
        gen, dist = self.counts(out)
        if dist == 0:
            raise CheckError("no states explored in " + module)
        self.states += dist
        self.transitions += gen
        self.log("design model", module, "states", dist, "transitions", gen)
        return out

    def model_defect(self, module, cfg, what, **kw):
        """Non-vacuity: the model with a deliberate mistake must be refuted."""
        out = self.tlc(module, cfg, expect_ok=False, **kw)
        m = re.search(r"Error: (Invariant \w+ is violated|Action property .* is violated|Deadlock reached|Temporal properties were violated)", out)
        if not m:
            raise CheckError("%s with %s was not refuted:\n%s" % (module, what, out[-2000:]))
        self.extra.setdefault("design_defects_refuted", []).append("%s %s: %s" % (module, what, m.group(1)))

    def generate(self, module, cfg, args=(), tag="SCN ", workers=1, timeout=600, defs=None):
        out = self.tlc(module, cfg, workers=workers, args=args, timeout=timeout, defs=defs)
        gen, dist = self.counts(out)
        self.states += dist
        self.transitions += gen
        res, seen = [], set()
        pre = '"' + tag
        for line in out.splitlines():
            if line.startswith(pre):
                if line in seen:
                    continue
                seen.add(line)
                res.append(json.loads(json.loads(line)[len(tag):]))
        if not res:
            raise CheckError("no scenarios generated by %s:\n%s" % (module, out[-3000:]))
        self.log("generated", len(res), "scenarios with", module, "(%d states)" % dist)
        return res

    def sample(self, xs, n):
        if len(xs) <= n:
            return list(xs)
        return self.rng.sample(xs, n)

    def stratify(self, xs, n, key):
        """About n elements, as evenly as possible from the groups key makes."""
        groups = {}
        for x in xs:
            groups.setdefault(key(x), []).append(x)
        for g in groups.values():
            self.rng.shuffle(g)
        res = []
        while len(res) < n and groups:
            for k in sorted(groups, key=str):
                res.append(groups[k].pop())
                if not groups[k]:
                    del groups[k]
        return res

    def write_lines(self, name, xs):
        p = self.path(name)
        with open(p, "w") as fh:
            for x in xs:
                fh.write(json.dumps(x) + "\n")
        return p

    def read_lines(self, p):
        res = []
        with open(p) as fh:
            for l in fh:
                if l.strip() and l.endswith("\n"):
                    res.append(json.loads(l))
        return res

    def drive_traces(self, name, args, n, timeout=900, **kw):
        """Performs scenarios 1..n and returns their traces.  If the code under
        test crashes the driver, the trace up to the fatal call is recovered and
        the rest is performed nevertheless."""
        traces, start, crashes = [], 1, 0
        while start <= n:
            out = self.path("drive-%d.ndjson" % start)
            d = self.drive(name, list(args) + ["-out", out, "-from", start], timeout=timeout, ok=(0, 2), **kw)
            got = self.read_lines(out)
            os.unlink(out)
            traces += got
            if d.returncode == 0:
                break
            if not re.search(r"^(fatal error|panic|runtime: |SIG)", d.stderr, re.M):
                raise CheckError("driver exited 2:\n" + d.stderr[-3000:])
            crashes += 1
            at = (got[-1]["id"] if got else start - 1) + 1
            j = self.path("journal")
            d2 = self.drive(name, list(args) + ["-out", self.path("null"), "-from", at, "-to", at, "-journal", j],
                            timeout=timeout, ok=(0, 2), **kw)
            last = self.read_lines(j) if os.path.exists(j) else []
            if d2.returncode == 0 or not last:
                raise CheckError("driver crashed, but not again on the same scenario:\n" + d.stderr[-3000:])
            t = last[-1]
            t["ev"][-1]["why"] = d2.stderr[:2000]
            traces.append(t)
            start = at + 1
            if crashes >= 5:
                break
        else:
            return traces
        hung = any(e.get("e") == "hang" for t in traces[-5:] for e in t.get("ev", ()))
        if not crashes and not hung and len(traces) != n:
            raise CheckError("driver recorded %d traces for %d scenarios" % (len(traces), n))
        return traces

    VIOL = re.compile(r'^<<"VIOL", (-?\d+), (\d+), \{(.*)\}>>')
    ACC = re.compile(r'^<<"ACCEPT", (-?\d+)>>')

    def validate(self, module, traces, cfg, what, chunk=4000, relabel=None, key=None, timeout=800, require_all=True):
        """Validate recorded traces against the specification with TLC.
        Returns {trace id: (event number, labels)} of the rejected ones."""
        rej = {}
        for i in range(0, len(traces), chunk):
            part = traces[i:i + chunk]
            p = self.write_lines("%s-%d.ndjson" % (module, i), part)
            out = self.tlc(module, cfg, env={"TRACE_FILE": p}, timeout=timeout)
            gen, dist = self.counts(out)
            self.states += dist
            self.transitions += gen
            acc = set()
            for line in out.splitlines():
                m = self.ACC.match(line)
                if m:
                    acc.add(int(m.group(1)))
                    continue
                m = self.VIOL.match(line)
                if m:
                    labels = set(re.findall(r'"(\w+)"', m.group(3)))
                    rej[int(m.group(1))] = (int(m.group(2)), labels)
            ids = set(t["id"] for t in part)
            missing = ids - acc - set(rej)
            if missing and require_all:
                raise CheckError("%s: no verdict for traces %s\n%s" % (module, sorted(missing)[:5], out[-2000:]))
            os.unlink(p)
        self.traces += len(traces)
        self.events += sum(len(t.get("ev", ())) for t in traces)
        if traces:
            self.samples.append({"what": what, "trace": shorten(self.rng.choice(traces))})
        self.log("validated", len(traces), what, "traces; rejected", len(rej))
        return rej

    def judge(self, rej, traces, what, extra=None, keyfn=None):
        """Turn rejected traces into violations of this property."""
        byid = {t["id"]: t for t in traces}
        for tid in sorted(rej):
            pos, labels = rej[tid]
            t = byid[tid]
            if self.prop not in labels:
                for l in labels:
                    self.other[l] = self.other.get(l, 0) + 1
                continue
            ev = t["ev"][pos - 1] if 0 < pos <= len(t.get("ev", [])) else None
            self.violations.append((labels, "%s: event %d %s" % (what, pos, shorten(ev)),
                                    {"what": what, "labels": sorted(labels), "rejected_event": pos,
                                     "trace": t, "extra": extra(t) if extra else None}))

    # ---- report ------------------------------------------------------------
    def finish(self, level="model_checking", assumptions=()):
        evd = os.path.join(VERIF, "evidence")
        os.makedirs(evd, exist_ok=True)
        cov = {
            "states": self.states,
            "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "events_validated": self.events,
            "samples": self.samples[:4] or ["none"],
        }
        cov.update(self.extra)
        if self.other:
            cov["rejections_attributed_to_other_properties"] = self.other
        if self.notes:
            cov["notes"] = self.notes
        rc = 0
        lines = []
        known = load_known(self.prop)
        new = []
        kept = {}
        for labels, desc, rep in self.violations:
            k = rep.get("finding")
            if k and k in known:
                kept[k] = kept.get(k, 0) + 1
            else:
                new.append((labels, desc, rep))
        for k in sorted(kept):
            lines.append("KNOWN-FINDING: property=%s %s" % (self.prop, known[k]))
        if new:
            rc = 1
            rd = os.path.join(evd, "replay")
            os.makedirs(rd, exist_ok=True)
            for i, (labels, desc, rep) in enumerate(new[:3]):
                rp = os.path.join(rd, "%s-%s-%d-%d.json" % (self.prop, self.tier, self.seed, i))
                with open(rp, "w") as fh:
                    json.dump(rep, fh, indent=1)
                lines.append("VIOLATION property=%s replay=%s" % (self.prop, rp))
                lines.append("  " + desc[:1500])
            if len(new) > 3:
                lines.append("  ... and %d more rejected traces" % (len(new) - 3))
        doc = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
               "coverage": cov, "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 2),
               "violations": len(new)}
        with open(os.path.join(evd, self.prop + ".json"), "w") as fh:
            json.dump(doc, fh, indent=1)
        for l in lines:
            print(l)
        print("%s %s: %s  (%d states, %d traces, %d events, %.1fs)" % (
            self.prop, self.tier, "VIOLATED" if rc else "ok", self.states, self.traces, self.events, time.time() - self.t0))
        return rc


def tla(x):
    """A Python value as a TLA+ expression."""
    if isinstance(x, bool):
        return "TRUE" if x else "FALSE"
    if isinstance(x, int):
        return str(x) if x >= 0 else "(%d)" % x
    if isinstance(x, str):
        return json.dumps(x)
    if isinstance(x, (set, frozenset)):
        return "{" + ", ".join(tla(v) for v in sorted(x, key=str)) + "}"
    if isinstance(x, (list, tuple)):
        return "<<" + ", ".join(tla(v) for v in x) + ">>"
    raise TypeError(x)


def shorten(x, n=900):
    s = json.dumps(x)
    return x if len(s) <= n else s[:n] + "..."


def load_known(prop):
    """known-findings.txt: 'known: property=<id> key=<key> <description>'"""
    res = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\w+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3)
    return res
