"""Shared machinery: running TLC, replaying, trace validation, verdicts."""
import concurrent.futures as cf
import json, math, os, re, subprocess, sys, time, traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = os.path.join(HERE, "specs")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NAN = None  # JSON null is awkward in TLA+: see enc()
BIG = 1 << 29


class MachineryError(Exception):
    pass


def _tla_value(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return v  # a TLA+ expression
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(_tla_value(x) for x in v) + ">>"
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(_tla_value(x) for x in sorted(v)) + "}"
    raise TypeError(v)


class Ctx:
    def __init__(self, pid, tier, seed, work):
        self.pid, self.tier, self.seed, self.work = pid, tier, seed, work
        self.quick = tier == "quick"
        self.states = self.transitions = self.validated = 0
        self.samples, self.violations, self.assumptions = [], [], []
        self.notes = {}
        self.exhaustive = True
        self.pool = cf.ThreadPoolExecutor(8)
        self.findings = load_findings(pid)
        self.hit = {}
        self.t0 = time.time()
        self._n = 0
        self.timing = {}

    # -- TLC ---------------------------------------------------------------
    def _tlc(self, module, consts, inv, extra, name, env=None, workers=4, simulate=None, heap="3g",
             spec="Spec", constraint=None, post=None, timeout=700, props=()):
        d = os.path.join(self.work, name)
        os.makedirs(d, exist_ok=True)
        cfg = [f"SPECIFICATION {spec}", "CHECK_DEADLOCK FALSE"]
        if consts:
            defs, lines = [], []
            for k, v in consts.items():
                defs.append(f"c_{k} == {_tla_value(v)}")
                lines.append(f"  {k} <- c_{k}")
            mod = f"MC_{name}"
            with open(os.path.join(d, mod + ".tla"), "w") as f:
                f.write(f"---- MODULE {mod} ----\nEXTENDS {module}\n" + "\n".join(defs) + "\n====\n")
            cfg += ["CONSTANTS"] + lines
        else:
            mod = module
        for i in inv:
            cfg.append(f"INVARIANT {i}")
        for i in props:
            cfg.append(f"PROPERTY {i}")
        if constraint:
            cfg.append(f"CONSTRAINT {constraint}")
        if post:
            cfg.append(f"POSTCONDITION {post}")
        with open(os.path.join(d, mod + ".cfg"), "w") as f:
            f.write("\n".join(cfg) + "\n")
        cmd = ["java", f"-Xmx{heap}", "-Xss16m", "-XX:+UseParallelGC", f"-DTLA-Library={SPECS}", "-cp", JARS,
               "tlc2.TLC", "-noGenerateSpecTE", "-metadir", os.path.join(d, "meta"),
               "-config", os.path.join(d, mod + ".cfg"), "-workers", str(workers)]
        if simulate:
            cmd += ["-simulate", f"num={simulate[0]}", "-depth", str(simulate[1]), "-seed", str(self.seed), "-aril", "0"]
        else:
            cmd += ["-seed", str(self.seed)]      # for the Random operators of the specifications
        cmd += extra
        src = os.path.join(d, mod + ".tla") if consts else os.path.join(SPECS, mod + ".tla")
        cmd.append(src)
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        if env:
            e.update(env)
        t = time.time()
        r = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           encoding="utf-8", errors="replace", timeout=timeout)
        self.timing[name] = round(time.time() - t, 2)
        out = r.stdout
        with open(os.path.join(d, "out.txt"), "w") as f:
            f.write(out)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if m:
            g, dist = int(m[-1][0]), int(m[-1][1])
        else:
            m = re.findall(r"The number of states generated: (\d+)", out)
            g = dist = int(m[-1]) if m else 0
        return r.returncode, out, g, dist

    def gen(self, module, consts=None, inv=("Inv",), name=None, workers=4, simulate=None, **kw):
        """Model check `module` and return (a future of) the cases it emits.

        The model's own invariants must hold: they are the design-level check
        of the property.  A violated invariant is a defect of the
        specification, not of the code: a machinery error."""
        self._n += 1
        name = name or f"gen{self._n}_{module}"
        if simulate:
            self.exhaustive = False

        def job():
            cache = os.environ.get("VERIF_TLC_CACHE")     # mutation campaigns only (tools/mutate.py)
            if cache:
                import hashlib
                key = hashlib.sha256(repr((sorted((f, open(os.path.join(SPECS, f)).read()) for f in os.listdir(SPECS)), module, consts, inv, simulate, self.seed, kw)).encode()).hexdigest()
                path = os.path.join(cache, key)
                if os.path.exists(path):
                    return json.load(open(path))
            rc, out, g, dist = self._tlc(module, consts, inv, [], name, workers=workers, simulate=simulate, **kw)
            cases = []
            for line in out.splitlines():
                if line.startswith('"CASE '):
                    cases.append(json.loads(json.loads(line)[5:]))
            ok = rc == 0 and ("No error has been found" in out or simulate)
            if not ok:
                raise MachineryError(f"TLC failed on {module}: " + tail(out))
            if cache:
                with open(path + f".{os.getpid()}", "w") as f:
                    json.dump((cases, g, dist), f)
                os.replace(path + f".{os.getpid()}", path)
            return cases, g, dist

        fut = self.pool.submit(job)

        def result():
            cases, g, dist = fut.result()
            self.states += dist
            self.transitions += g
            cases.sort(key=lambda c: json.dumps(c, sort_keys=True))
            return cases

        return result

    def trace(self, module, records, consts=None, name=None, workers=1, heap="3g", chunk=None):
        """Validate records (one event per record) against trace spec `module`.

        The spec is total: it prints <<"BAD", l, clauses>> for an event that no
        action of the specification explains, and goes on."""
        self._n += 1
        name = name or f"trace{self._n}_{module}"
        if not records:
            raise MachineryError("empty trace for " + module)
        chunk = chunk or max(1, (len(records) + 5) // 6)
        parts = [records[i:i + chunk] for i in range(0, len(records), chunk)]

        def one(ip):
            i, part = ip
            path = os.path.join(self.work, f"{name}_{i}.ndjson")
            with open(path, "w") as f:
                for r in part:
                    f.write(json.dumps(r["tla"] if "tla" in r else r, ensure_ascii=True) + "\n")
            rc, out, g, dist = self._tlc(module, consts, [], [], f"{name}_{i}", env={"TRACE": path},
                                         workers=workers, heap=heap, spec="TraceSpec", post="TraceAccepted")
            if rc != 0 or "No error has been found" not in out:
                raise MachineryError(f"TLC trace validation failed on {module}: " + tail(out))
            bad = []
            for m in re.finditer(r'<<"BAD", (\d+), (.*?)>>\n', out):
                bad.append((int(m.group(1)), m.group(2)))
            return i, bad, g, dist

        n = 0
        for i, bad, g, dist in self.pool.map(one, list(enumerate(parts))):
            self.states += dist
            self.transitions += g
            n += len(parts[i])
            for l, clause in bad:
                self.fail(clause, parts[i][l - 1])
        self.validated += n
        return n

    # -- verdicts ----------------------------------------------------------
    def fail(self, clause, case):
        clause = str(clause)
        for f in self.findings:
            if f["key"] and f["key"] in (case.get("key", "") if isinstance(case, dict) else ""):
                self.hit[f["key"]] = f
                return
        self.violations.append((clause, case))

    def sample(self, x, cap=4):
        if len(self.samples) < cap:
            self.samples.append(x)

    def note(self, k, v):
        self.notes[k] = v

    def finish(self, level="model_checking"):
        ev = os.path.join(HERE, "evidence", f"{self.pid}.json")
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.validated,
                   samples=jsonable(self.samples), exhaustive=bool(self.exhaustive), details=jsonable(self.notes),
                   tlc_seconds=self.timing)
        with open(ev, "w") as f:
            json.dump(dict(property=self.pid, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                           assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                           violations=len(self.violations)), f, indent=1)
        for k, f in self.hit.items():
            print(f"KNOWN-FINDING: property={self.pid} {f['text']}")
        if self.violations:
            rp = os.path.join(HERE, "evidence", "replay", f"{self.pid}-0.json")
            with open(rp, "w") as f:
                json.dump(dict(property=self.pid, seed=self.seed, tier=self.tier,
                               violations=[dict(clause=c, case=jsonable(x)) for c, x in self.violations[:20]]), f, indent=1)
            cl = {}
            for c, _ in self.violations:
                cl[c] = cl.get(c, 0) + 1
            for c, k in sorted(cl.items(), key=lambda x: -x[1])[:10]:
                print(f"{self.pid}: {k} violation(s) of {c}")
            print("first:", json.dumps(jsonable(self.violations[0][1]))[:1500])
            print(f"VIOLATION property={self.pid} replay={rp}")
            return 1
        print(f"{self.pid}: held; states={self.states} transitions={self.transitions} "
              f"validated={self.validated} wall={time.time()-self.t0:.1f}s")
        return 0


def tail(out, n=40):
    return "\n".join(out.splitlines()[-n:])


def jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return repr(float(x)) if not math.isfinite(x) else float(x)
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, (str, int, bool)) or x is None:
        return x
    return repr(x)


NANI = -999999999  # integer code of NaN in traces ("NaNI" in the specs)


def fx(x, scale, cap=BIG):
    """float -> fixed-point int for TLC (NaN coded, infinities and huge values clamped)"""
    x = float(x)
    if math.isnan(x):
        return NANI
    y = x * scale
    if y > cap:
        return cap
    if y < -cap:
        return -cap
    return int(round(y))


def fxs(a, scale, cap=BIG):
    import numpy as np
    return [fx(v, scale, cap) for v in np.asarray(a, dtype=float).reshape(-1)]


def load_findings(pid):
    """known_findings.txt: lines
         finding: property=<id> key=<signature> :: <what fails>
         fixed: property=<id> <commit> <what failed>      (suppresses nothing)"""
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) key=(\S+) :: (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append(dict(key=m.group(2), text=m.group(3)))
    return out
