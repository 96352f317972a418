"""Bookkeeping shared by all checks: cases, violations, known findings, evidence."""
import hashlib, json, os, pickle, subprocess, sys, tempfile, time, traceback

VERIF = os.environ.get("VERIF_DIR", os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("VERIF_REPO", "/repo")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
SCRATCH = os.environ.get("VERIF_SCRATCH", "/tmp")
THOROUGH = TIER == "thorough"
T0 = float(os.environ.get("VERIF_T0", time.time()))


def _default(o):
    import numpy as np
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, np.ndarray):
        return o.tolist()
    return repr(o)


def known_findings(pid):
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                rest = line.split(" ", 2)[2]
                key, _, desc = rest.partition(" :: ")
                out[key.strip()[len("key="):]] = desc
    return out


class Stop(Exception):
    pass


class Check:
    def __init__(self, pid, level, rule, max_violations=5):
        self.pid, self.level, self.rule = pid, level, rule
        self.max_violations = max_violations
        self.evaluations = 0
        self.outcomes = set()
        self.states = set()
        self.nstates = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.sections = {}
        self.violations = []
        self.known = known_findings(pid)
        self.known_seen = {}
        self.assumptions = []
        self.extra = {}
        self.exhaustive = True
        self.caps = []
        self._section = "main"
        self._prog = os.environ.get("VERIF_PROGRESS")
        self._progf = open(self._prog, "r+") if self._prog and os.path.exists(self._prog) else None
        self._case = None
        self._lastbeat = 0.0
        self._splitdir = None
        self._own = False
        self.child = os.environ.get("VERIF_CHILD")  # directory of the fan-out this process is a helper of

    # -- progress -----------------------------------------------------------
    def beat(self, text=None):
        if self._progf is None:
            return
        now = time.time()
        if text is None and now - self._lastbeat < 2.0:
            return
        self._lastbeat = now
        self._progf.seek(0)
        self._progf.write((text if text is not None else str(self._case))[:3500] + "\n")
        self._progf.truncate()
        self._progf.flush()

    def section(self, name):
        self._section = name
        self.sections.setdefault(name, 0)
        self.beat("section " + name)
        if os.environ.get("VERIF_VERBOSE"):
            print("[%s +%.1fs] %s" % (self.pid, time.time() - T0, name), flush=True)

    def case(self, desc, outcome=None):
        """Count one execution; `desc` identifies it."""
        if self.child and self._splitdir and not self._own:
            self._case = desc
            return  # counted by the first process
        self.evaluations += 1
        self.sections[self._section] = self.sections.get(self._section, 0) + 1
        self._case = desc
        self.beat("%s | %s" % (self._section, desc if isinstance(desc, str) else json.dumps(desc, default=_default)))
        if outcome is not None:
            self.outcome(outcome)
        if self.sections[self._section] in (1, 7) and len(self.samples) < 24:
            self.samples.append({"section": self._section, "case": json.loads(json.dumps(desc, default=_default))})

    def outcome(self, obj):
        self.outcomes.add(self.digest(obj))

    @staticmethod
    def digest(obj):
        h = hashlib.sha1()
        _feed(h, obj)
        return h.digest()[:10]

    def state(self, obj):
        self.states.add(self.digest(obj))

    def elapsed(self):
        return time.time() - T0

    # -- verdicts -----------------------------------------------------------
    unsure = None  # a function: why a failure is not to be believed

    def fail(self, key, msg, replay=None):
        key = key.replace(" ", "_")
        if self.unsure and self.unsure():  # the machinery lacks what it needs to judge
            self.extra["not judged: " + str(self.unsure())[:200]] = msg[:300]
            return
        if key in self.known:
            if key not in self.known_seen:
                self.known_seen[key] = msg
            return
        if any(v["key"] == key for v in self.violations):
            return
        if self.child:
            self.violations.append({"key": key, "msg": msg, "section": self._section, "case": self._case, "replay": replay})
            if len(self.violations) >= self.max_violations:
                raise Stop()
            return
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        n = len(self.violations) + 1
        path = os.path.join(d, "%s_%d.json" % (self.pid, n))
        with open(path, "w") as f:
            json.dump({"property": self.pid, "section": self._section, "key": key, "message": msg,
                       "case": self._case, "replay": replay}, f, indent=1, default=_default)
        self.violations.append({"key": key, "msg": msg, "path": path})
        print("%s [%s] %s: %s" % (self.pid, self._section, key, msg[:1500]), file=sys.__stdout__)
        print("VIOLATION property=%s replay=%s" % (self.pid, path), flush=True, file=sys.__stdout__)
        if len(self.violations) >= self.max_violations:
            raise Stop()

    def ok(self, cond, key, msg, replay=None):
        if not cond:
            self.fail(key, msg() if callable(msg) else msg, replay)
        return bool(cond)

    def call(self, key, fn, *a, **k):
        """Run code under test: an exception there is a violation (returns (False, exc))."""
        try:
            return True, fn(*a, **k)
        except Stop:
            raise
        except BaseException as e:
            if not isinstance(e, Exception) and not getattr(e, "finding", False):
                raise
            tb = traceback.format_exc()
            self.fail(key + ":exception:" + type(e).__name__, "unexpected %s: %s\n%s" % (type(e).__name__, e, tb[-1500:]))
            return False, e

    def cap(self, text):
        self.exhaustive = False
        self.caps.append(text)

    # -- fan-out over processes ----------------------------------------------
    def fanout(self, njobs, do, workers=None):
        """do(k) for every k < njobs, shared among helper processes (this same check started
        again: it runs the body up to here, then takes jobs) and this one."""
        if self.child:
            try:
                _take(self.child, njobs, do)
            except Stop:
                pass
            self._report()
        workers = min(njobs, workers or min(8, os.cpu_count() or 1))
        d = tempfile.mkdtemp(dir=SCRATCH)
        env = dict(os.environ, VERIF_CHILD=d)
        procs = [subprocess.Popen([sys.executable, "-W", "ignore", "-X", "faulthandler", "-m", "checks." + self.pid], env=env)
                 for _ in range(workers - 1)]
        stop = None
        try:
            _take(d, njobs, do)
        except Stop as e:
            stop = e
            open(os.path.join(d, "stop"), "w").close()
        for p in procs:
            p.wait()
            if p.returncode != 0:
                if p.returncode < 0:
                    self.fail("helper_died", "a process running the code died with signal %d" % -p.returncode)
                else:
                    raise RuntimeError("a helper process of the check failed (%d)" % p.returncode)
            elif stop is None:
                with open(os.path.join(d, "out%d.pkl" % p.pid), "rb") as f:
                    self._merge(pickle.load(f))
        if stop is not None:
            raise stop

    def _report(self):
        """Helper process: hand over what was counted and end."""
        me = {k: getattr(self, k) for k in ("evaluations", "outcomes", "states", "nstates", "transitions", "traces", "samples",
                                            "sections", "violations", "known_seen", "extra", "exhaustive", "caps")}
        with open(os.path.join(self.child, "out%d.pkl" % os.getpid()), "wb") as f:
            pickle.dump(me, f)
        sys.stdout.flush()
        os._exit(0)

    # -- the same body in several processes, its loops shared item by item -----
    def split(self, workers=None):
        """Start helpers that run the whole body too.  From here on every unit of work has to be
        guarded by `if ck.mine():`; each unit is done by exactly one of the processes."""
        self._items = 0
        if self.child:
            self._splitdir = self.child
            return
        workers = min(workers or 6, os.cpu_count() or 1)
        self._splitdir = tempfile.mkdtemp(dir=SCRATCH)
        self._procs = []
        for k in range(workers - 1):
            sc = os.path.join(self._splitdir, "scratch%d" % k)
            os.mkdir(sc)
            env = dict(os.environ, VERIF_CHILD=self._splitdir, VERIF_SCRATCH=sc)
            self._procs.append(subprocess.Popen([sys.executable, "-W", "ignore", "-X", "faulthandler", "-m", "checks." + self.pid], env=env))

    def mine(self):
        k = self._items
        self._items += 1
        self._own = False
        if os.path.exists(os.path.join(self._splitdir, "stop")):
            raise Stop()
        try:
            os.mkdir(os.path.join(self._splitdir, "job%d" % k))
        except FileExistsError:
            return False
        self._own = True
        return True

    def _join(self, stopped):
        if stopped:
            open(os.path.join(self._splitdir, "stop"), "w").close()
        for p in self._procs:
            p.wait()
            if p.returncode < 0:
                self.fail("helper_died", "a process running the code died with signal %d" % -p.returncode)
            elif p.returncode != 0:
                raise RuntimeError("a helper process of the check failed (%d)" % p.returncode)
            else:
                with open(os.path.join(self._splitdir, "out%d.pkl" % p.pid), "rb") as f:
                    o = pickle.load(f)
                try:
                    self._merge(o)
                except Stop:
                    open(os.path.join(self._splitdir, "stop"), "w").close()
                    stopped = True

    def _merge(self, o):
        for k in ("evaluations", "nstates", "transitions", "traces"):
            setattr(self, k, getattr(self, k) + o[k])
        self.outcomes |= o["outcomes"]
        self.states |= o["states"]
        self.samples = (self.samples + o["samples"])[:24]
        for k, v in o["sections"].items():
            self.sections[k] = self.sections.get(k, 0) + v
        for k, v in o["known_seen"].items():
            self.known_seen.setdefault(k, v)
        for k, v in o["extra"].items():
            if isinstance(v, list):
                self.extra.setdefault(k, []).extend(v)
            elif isinstance(v, (int, float)):
                self.extra[k] = self.extra.get(k, 0) + v
            else:
                self.extra[k] = v
        self.exhaustive &= o["exhaustive"]
        self.caps += [c for c in o["caps"] if c not in self.caps]
        for v in o["violations"]:
            self._section, self._case = v["section"], v["case"]
            self.fail(v["key"], v["msg"], v["replay"])

    # -- end ----------------------------------------------------------------
    def finish(self):
        for key, msg in sorted(self.known_seen.items()):
            print("KNOWN-FINDING: property=%s %s (%s)" % (self.pid, self.known[key], key))
        cov = {"samples": self.samples, "exhaustive": bool(self.exhaustive and not self.violations),
               "sections": self.sections, "distinct_outcomes": len(self.outcomes)}
        if self.level == "model_checking":
            cov.update(states=len(self.states) + self.nstates, transitions=self.transitions,
                       traces_validated_against_impl=self.traces)
            cov["rule"] = self.rule
        else:
            cov.update(evaluations=self.evaluations, distinct_nontrivial=len(self.outcomes), rule=self.rule)
        if self.caps:
            cov["caps_hit"] = self.caps
        cov.update(self.extra)
        if self.known_seen:
            cov["known_findings_observed"] = sorted(self.known_seen)
        ev = {"property": self.pid, "tier": TIER, "seed": SEED, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - T0, 2),
              "violations": len(self.violations)}
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=_default)
        print("%s %s: %s  evaluations=%d outcomes=%d states=%d transitions=%d wall=%.1fs" % (
            self.pid, TIER, "VIOLATED" if self.violations else "held", self.evaluations, len(self.outcomes),
            len(self.states) + self.nstates, self.transitions, time.time() - T0), flush=True)
        return 1 if self.violations else 0


def _feed(h, o):
    import numpy as np
    if isinstance(o, np.ndarray):
        h.update(str(o.dtype).encode() + str(o.shape).encode())
        h.update(np.ascontiguousarray(o).tobytes())
    elif isinstance(o, (list, tuple)):
        h.update(b"(")
        for x in o:
            _feed(h, x)
        h.update(b")")
    elif isinstance(o, dict):
        for k in sorted(o, key=str):
            _feed(h, (k, o[k]))
    else:
        h.update(repr(o).encode())


def _take(d, njobs, do):
    for k in range(njobs):
        if os.path.exists(os.path.join(d, "stop")):
            return
        try:
            os.mkdir(os.path.join(d, "job%d" % k))
        except FileExistsError:
            continue
        do(k)


def main(pid, level, rule, body, max_violations=5):
    ck = Check(pid, level, rule, max_violations)
    stopped = False
    try:
        try:
            body(ck)
        except Stop:
            stopped = True
        if ck._splitdir and not ck.child:
            ck._join(stopped)
    except Stop:
        pass
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        text = traceback.format_exc()
        # blame the code under test only if it raised (innermost frames), not the harness
        blame = any(f.filename.startswith(REPO + os.sep) for f in tb)
        if blame and not isinstance(e, (ImportError, MemoryError)):
            try:
                ck.fail("exception:" + type(e).__name__, "unexpected %s in %s\n%s" % (type(e).__name__, ck._case, text[-2500:]))
            except Stop:
                pass
        else:
            print(text)
            if not ck.child:
                if ck._splitdir:
                    open(os.path.join(ck._splitdir, "stop"), "w").close()
                ck.finish()
            sys.stdout.flush()
            os._exit(2)
    if ck.child and ck._splitdir:
        ck._report()
    if ck.child:  # ended (or stopped) before its fan-out: nothing to report
        os._exit(3)
    code = ck.finish()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
