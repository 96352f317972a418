"""Runs the distributed entry point on the deterministic ray stand-in."""
import time, timeit

from vlib import fakeray

timeit.default_timer = lambda: 1.0  # no real clock inside the code under test
_sleep = time.sleep
time.sleep = lambda *a: None
ray = fakeray.build_module()

# slow: not finished for the next 40 waits; stall: for the next 1600 (longer than the code
# waits before it declares a band-detection worker hung)
FAULTS_BAND = [None, "slow", "death", "raise", "hang"]
FAULTS_INDEX = [None, "slow", "death", "raise", "stall"]


class Sched:
    """Adapts the chooser to the fake ray session."""

    def __init__(self, ch, faults):
        self.ch = ch
        self.faults = faults
        self.firstcls = None
        self.waits = 0
        self.slow = {}
        self.idle = 0

    def fault(self, t):
        if not self.faults:
            return None
        cls = t.actor._cls.__name__
        if self.firstcls is None:
            self.firstcls = cls
        opts = FAULTS_BAND if cls == self.firstcls else FAULTS_INDEX
        if not t.nonempty:
            # an idle poll: its worker may die too, offered at the first few polls only
            self.idle += 1
            if self.idle > 4:
                return None
            opts = [None, "death"]
        f = opts[self.ch.choose("fault", len(opts))]
        if f in ("slow", "stall"):
            self.slow[t.idx] = (40 if f == "slow" else 1600, None)
            return None
        return f

    def subset(self, cand, lo):
        self.waits += 1
        force = []
        rest = []
        for r in cand:
            if r.task.idx in self.slow:
                d, until = self.slow[r.task.idx]
                if until is None:
                    until = self.waits + d
                    self.slow[r.task.idx] = (d, until)
                if self.waits < until and lo == 0:
                    continue
                force.append(r)
            else:
                rest.append(r)
        cand = [r for r in cand if r in rest or r in force]
        if not cand:
            return []
        k = len(cand)
        # option 0: everything finished; option m: the tasks in bit set m held back
        opts = [m for m in range(1 << min(k, 3)) if k - bin(m).count("1") >= lo]
        m = opts[self.ch.choose("sched", len(opts))]
        return [r for i, r in enumerate(cand) if not (i < 3 and m >> i & 1)]



class Plain:
    """Chooser that takes the default everywhere."""

    def choose(self, kind, n):
        return 0


MEMO = {}


def distributed(horizon=4000, **call):
    """index_pats_distributed under the default schedule."""
    import contextlib, io, os
    from pyebsdindex import ebsd_index
    fakeray.CUR = fakeray.Session(Sched(Plain(), False), MEMO, horizon)
    before = os.environ.get("CUDA_VISIBLE_DEVICES")
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return ebsd_index.index_pats_distributed(**call)
    finally:
        if before is None:
            os.environ.pop("CUDA_VISIBLE_DEVICES", None)
        else:
            os.environ["CUDA_VISIBLE_DEVICES"] = before
