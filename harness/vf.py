"""Common machinery of all checks: TLC runs, trace files, verdicts, evidence, known findings."""
import json, math, os, random, re, shutil, signal, subprocess, sys, tempfile, time, traceback
import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
FINDINGS = os.path.join(VERIF, "KNOWN_FINDINGS.json")


class MachineryError(Exception):
    pass


def num(x):
    """A recorded number: decimal string for floats, plain integer for ints."""
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        x = int(x)
        return x if abs(x) < 2**31 - 1 else repr(float(x))
    x = float(x)
    if math.isnan(x):
        return "NaN"
    if math.isinf(x):
        return "Infinity" if x > 0 else "-Infinity"
    return repr(x)


def fl(x):
    """Like num, but always the float form."""
    return num(float(x))


def vec(v):
    return [repr(x) if x - x == 0.0 else num(x) for x in np.asarray(v, dtype=float).ravel().tolist()]


def mat(m):
    return [vec(r) for r in np.asarray(m, dtype=float)]


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return [jsonable(v) for v in x]
    if isinstance(x, (float, np.floating, int, np.integer, bool, np.bool_)):
        return num(x)
    if x is None:
        return "none"
    return str(x)


def ensure_build():
    cls = os.path.join(BUILD, "tlc2", "module", "Flt.class")
    src = os.path.join(SPEC, "java", "Flt.java")
    if not os.path.exists(cls) or os.path.getmtime(cls) < os.path.getmtime(src):
        os.makedirs(BUILD, exist_ok=True)
        tmp = tempfile.mkdtemp(prefix="fltbuild")
        r = subprocess.run(["javac", "-cp", JARS, "-d", tmp, src], capture_output=True, text=True)
        if r.returncode != 0:
            raise MachineryError("javac: " + r.stdout + r.stderr)
        shutil.copytree(tmp, BUILD, dirs_exist_ok=True)
        os.utime(cls)
        shutil.rmtree(tmp, ignore_errors=True)


class Timeout(Exception):
    pass


def _alarm(signum, frame):
    raise Timeout("time limit of the scenario")


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier != "thorough"
        self.rng = random.Random(seed * 1000003 + int(prop[1:]))
        self.np_rng = np.random.default_rng([seed, int(prop[1:])])
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="vf_%s_" % prop)
        self.states = self.transitions = self.ntraces = self.nevents = 0
        self.samples, self.assumptions, self.models, self.fails = [], [], [], []
        self.extra = {}
        self.exhaustive = None
        self._n = 0
        findings = json.load(open(FINDINGS)) if os.path.exists(FINDINGS) else {"open": []}
        self.known = [f for f in findings["open"] if f["property"] == prop]
        self.known_hit = {}

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env=None, workers="auto", heap="6g", timeout=800, simulate=None, dirs=()):
        """Run TLC on spec/<module>.tla with the cfg text; returns (returncode, output)."""
        ensure_build()
        self._n += 1
        d = os.path.join(self.work, "tlc%d" % self._n)
        os.makedirs(d)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
        with open(os.path.join(d, "run.cfg"), "w") as f:
            f.write(cfg)
        cmd = ["java", "-Xss64m", "-Xmx" + heap, "-XX:+UseParallelGC", "-cp", BUILD + ":" + JARS, "tlc2.TLC",
               "-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE", "-config", "run.cfg"]
        if simulate:
            cmd += ["-simulate", simulate[0], "-depth", str(simulate[1]), "-seed", str(self.seed)]
        cmd += [module + ".tla"]
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        try:
            r = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError("TLC timeout on " + module)
        out = re.sub(r"(?m)^Loading .*\n", "", r.stdout + r.stderr)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if m:
            self.transitions += int(m[-1][0])
            self.states += int(m[-1][1])
        shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
        return r.returncode, out, (int(m[-1][1]) if m else 0)

    def model(self, module, constants="", invariants=(), properties=(), extra="", workers="auto", heap="6g", timeout=800):
        """Exhaustive check of a design module; a failure is an error of the machinery."""
        cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
        if constants:
            cfg += "CONSTANTS\n" + constants + "\n"
        if invariants:
            cfg += "INVARIANTS " + " ".join(invariants) + "\n"
        if properties:
            cfg += "PROPERTIES " + " ".join(properties) + "\n"
        cfg += extra
        t = time.time()
        rc, out, n = self.tlc(module, cfg, workers=workers, heap=heap, timeout=timeout)
        if rc != 0:
            raise MachineryError("design model %s fails (rc %d)\n%s" % (module, rc, out[-4000:]))
        self.models.append(dict(module=module, constants=constants.strip(), invariants=list(invariants),
                                properties=list(properties), distinct_states=n, wall_s=round(time.time() - t, 1)))
        return out

    def generate(self, module, constants="", extra="", workers="auto", timeout=800, tag="GEN", simulate=None):
        """Behaviours printed by a design module as <<"GEN", ToJson(x)>>; returns the decoded values, sorted."""
        cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n" + ("CONSTANTS\n" + constants + "\n" if constants else "") + extra
        rc, out, n = self.tlc(module, cfg, workers=workers, timeout=timeout, simulate=simulate)
        if rc != 0:
            raise MachineryError("generator %s fails (rc %d)\n%s" % (module, rc, out[-4000:]))
        res = set(re.findall(r'^"%s\|(.*)"$' % tag, out, re.M))
        self.models.append(dict(module=module, constants=constants.strip(), generated=len(res), distinct_states=n))
        return [json.loads(json.loads('"' + s + '"')) for s in sorted(res)]

    # ------------------------------------------------------------- traces
    def validate(self, module, traces, names=None, constants="", env=None, heap="8g", label=None, timeout=800, chunk=None):
        """Validate recorded traces (lists of event dicts) against spec/<module>.tla.

        Returns the list of failures [(trace index, event index, clause)]."""
        if not traces:
            raise MachineryError("no traces for " + module)
        if chunk and len(traces) > chunk:
            res = []
            for i in range(0, len(traces), chunk):
                res += [(a + i, b, c) for a, b, c in self.validate(module, traces[i:i + chunk],
                        names[i:i + chunk] if names else None, constants, env, heap, label, timeout)]
            return res
        path = os.path.join(self.work, "traces%d.ndjson" % (self._n + 1))
        with open(path, "w") as f:
            for t in traces:
                f.write(json.dumps(t, default=jsonable) + "\n")
        cfg = "SPECIFICATION TSpec\nCHECK_DEADLOCK FALSE\n" + ("CONSTANTS\n" + constants + "\n" if constants else "")
        ev = dict(env or {}, TRACES=path)
        rc, out, n = self.tlc(module, cfg, env=ev, heap=heap, timeout=timeout)
        fails = [(int(a) - 1, int(b) - 1, c) for a, b, c in re.findall(r'^"FAIL\|(\d+)\|(\d+)\|(.*)"$', out, re.M)]
        notes = [(int(a) - 1, int(b) - 1, c) for a, b, c in re.findall(r'^"NOTE\|(\d+)\|(\d+)\|(.*)"$', out, re.M)]
        if len(fails) + len(notes) != out.count('"FAIL|') + out.count('"NOTE|'):
            raise MachineryError("unreadable verdicts\n" + out[-3000:])
        total = sum(len(t) + 1 for t in traces)
        if rc != 0:
            if "evaluating" in out and ("Error: " in out) and "Parsing or semantic" not in out and "OutOfMemory" not in out:
                fails = fails or self._bisect(module, traces, constants, env, heap, out)
            else:
                raise MachineryError("trace validation %s fails (rc %d)\n%s" % (module, rc, out[-4000:]))
        elif n != total - sum(len(traces[a]) - b - 1 for a, b, _ in fails):
            raise MachineryError("%s: %d states for %d events\n%s" % (module, n, total, out[-3000:]))
        fails = sorted(set(fails) | set(notes))
        self.ntraces += len(traces)
        self.nevents += sum(len(t) for t in traces)
        for t in traces[:2]:
            self.samples.append(dict(spec=module, trace=json.loads(json.dumps(jsonable(t[:3])))))
        for (ti, ei, clause) in fails:
            nm = names[ti] if names else "%s#%d" % (label or module, ti)
            self.report(clause, dict(spec=module, scenario=nm, event_index=ei,
                                     events=jsonable(traces[ti][max(0, ei - 3):ei + 1]), head=jsonable(traces[ti][:1])), nm)
        return fails

    def _bisect(self, module, traces, constants, env, heap, out):
        msg = re.sub(r"\s+", " ", out[out.find("Error:"):])[:600]
        self.extra["evaluation_error"] = msg
        return [(0, len(traces[0]) - 1, "recorded data outside the domain of the specification: " + msg.replace('"', "'"))]

    # ------------------------------------------------------------ verdicts
    def report(self, clause, data, name=""):
        for f in self.known:
            if re.search(f["match_clause"], clause) and re.search(f.get("match_scenario", ""), str(name)):
                self.known_hit.setdefault(f["id"], (f, 0))
                self.known_hit[f["id"]] = (f, self.known_hit[f["id"]][1] + 1)
                return
        self.fails.append((clause, data, name))

    def guard(self, seconds=60):
        return Guard(seconds)

    def finish(self):
        evd = os.path.join(VERIF, "evidence")
        os.makedirs(evd, exist_ok=True)
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.ntraces,
                   events_validated=self.nevents, samples=self.samples[:6] or [dict(models=self.models[:2])], models=self.models)
        if self.exhaustive is not None:
            cov["exhaustive"] = self.exhaustive
        cov.update(self.extra)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="model_checking", coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 1), violations=len(self.fails))
        with open(os.path.join(evd, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for fid, (f, n) in sorted(self.known_hit.items()):
            print("KNOWN-FINDING: property=%s %s (%d occurrences)" % (self.prop, f["what"], n))
        rc = 0
        if self.fails:
            rd = os.path.join(evd, "replay")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, self.prop + ".json")
            with open(path, "w") as f:
                json.dump([dict(clause=c, scenario=n, data=d) for c, d, n in self.fails[:20]], f, indent=1)
            seen = set()
            for c, d, n in self.fails:
                if (c) not in seen and len(seen) < 8:
                    seen.add(c)
                    print("  violated clause '%s' in scenario %s" % (c, n))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            rc = 1
        else:
            print("OK property=%s traces=%d events=%d states=%d wall=%.1fs" % (self.prop, self.ntraces, self.nevents, self.states, time.time() - self.t0))
        return rc

    def cleanup(self):
        shutil.rmtree(self.work, ignore_errors=True)


class Guard:
    """Context manager turning any exception of the code under test into `self.exc`."""
    def __init__(self, seconds=60):
        self.seconds, self.exc = seconds, None

    def __enter__(self):
        self.old = signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(self.seconds)
        return self

    def __exit__(self, et, ev, tb):
        signal.alarm(0)
        signal.signal(signal.SIGALRM, self.old)
        if et is None:
            return False
        if issubclass(et, (KeyboardInterrupt, SystemExit, MachineryError)):
            return False
        last = traceback.extract_tb(tb)[-1] if tb else None
        self.exc = "%s: %s (%s:%s)" % (et.__name__, str(ev)[:200].replace('"', "'").replace("\n", " "), os.path.basename(last.filename) if last else "", last.lineno if last else 0)
        return True


def scenario(fn, *a, seconds=120, **k):
    """Run fn(trace, *a); an exception of the code under test becomes a final 'exc' event."""
    tr = []
    with Guard(seconds) as g:
        fn(tr, *a, **k)
    if g.exc:
        tr.append(dict(ev="exc", msg=g.exc))
    return tr
