"""A deterministic stand-in for the part of ray's API the package can use, driven by
a scheduler that owns every source of nondeterminism of the real thing:

* which outstanding tasks are finished when wait() returns (any subset),
* whether a task's actor dies, whether the task raises inside the worker, whether it
  never finishes.

Semantics kept from ray 2.x: arguments travel by value (pickle protocol 5, arrays
arrive read-only), an actor runs its tasks in submission order on one instance, an
actor that died fails all its outstanding and later tasks at get(), wait() keeps
input order, rejects duplicates and bad num_returns, and returns ([], []) for [].

Tasks run the real worker code.  Results are memoised on the pickled arguments, so
that exploring thousands of schedules does not repeat identical computations.
"""
import hashlib, pickle, sys, types


class RayError(Exception):
    pass


class RayActorError(RayError):
    pass


class GetTimeoutError(RayError, TimeoutError):
    pass


class Livelock(BaseException):
    """The horizon of one execution was exceeded (BaseException: the code under test
    has bare excepts)."""
    finding = True


class Deadlock(BaseException):
    """Blocking call on something that can never finish."""
    finding = True


class _Poison:
    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise MemoryError("injected transient failure inside the worker")

    __getitem__ = __len__ = __iter__ = lambda self, *a: (_ for _ in ()).throw(
        MemoryError("injected transient failure inside the worker"))


def _dump(obj):
    bufs = []
    data = pickle.dumps(obj, protocol=5, buffer_callback=bufs.append)
    return data, [bytes(b.raw()) for b in bufs]


def _load(d):
    return pickle.loads(d[0], buffers=d[1])


def _key(d):
    h = hashlib.sha1(d[0])
    for b in d[1]:
        h.update(b)
    return h.digest()


class ObjectRef:
    def __init__(self, sess, task=None, dump=None):
        self.sess, self.task, self.dump = sess, task, dump
        sess.nref += 1
        self.n = sess.nref

    def __hash__(self):
        return self.n

    def __eq__(self, o):
        return self is o

    def __reduce__(self):
        return (_RefToken, (self.n,))


class _RefToken:
    def __init__(self, n):
        self.n = n


class Task:
    def __init__(self, actor, method, args, kwargs, idx):
        self.actor, self.method, self.args, self.kwargs, self.idx = actor, method, args, kwargs, idx
        self.started = False
        self.released = False  # the scheduler has let it finish
        self.hung = False
        self.error = None
        self.result = None
        self.fault = None
        self.nonempty = not (args and args[0] is None)


class Session:
    """One execution: the choices made, the objects created, limits."""

    def __init__(self, chooser, memo, horizon=4000):
        self.chooser = chooser
        self.memo = memo
        self.horizon = horizon
        self.nref = 0
        self.ntask = 0
        self.tasks = []
        self.refs = {}
        self.actors = []
        self.events = 0
        self.trace = []
        self.inited = False
        self.log = []

    def tick(self):
        self.events += 1
        if self.events > self.horizon:
            raise Livelock("more than %d scheduler events without finishing" % self.horizon)


CUR = None  # current session


class ActorHandle:
    def __init__(self, cls, args, kwargs):
        self._cls = cls
        self._dump = _dump((args, kwargs))
        self._inst = None
        self._dead = False
        self._hung = False
        self._queue = []
        self._id = len(CUR.actors)
        CUR.actors.append(self)

    def __getattr__(self, name):
        if name.startswith("_"):
            if hasattr(self._cls, name) and not name.startswith("__"):
                return _Method(self, name)
            raise AttributeError(name)
        if not hasattr(self._cls, name):
            raise AttributeError("actor has no method " + name)
        return _Method(self, name)


class _Method:
    def __init__(self, actor, name):
        self.actor, self.name = actor, name

    def options(self, **k):
        return self

    def remote(self, *args, **kwargs):
        s = CUR
        s.tick()
        t = Task(self.actor, self.name, args, kwargs, s.ntask)
        # arguments are captured by value now, as ray serialises at submission
        t.dump = _dump((tuple(("ref", a) if isinstance(a, ObjectRef) else ("val", a) for a in args),
                        {k: (("ref", a) if isinstance(a, ObjectRef) else ("val", a)) for k, a in kwargs.items()}))
        t.refs = {a.n: a for a in list(args) + list(kwargs.values()) if isinstance(a, ObjectRef)}
        s.ntask += 1
        s.tasks.append(t)
        ref = ObjectRef(s, task=t)
        t.ref = ref
        t.fault = s.chooser.fault(t)
        if t.fault == "hang":
            t.hung = True
        self.actor._queue.append(t)
        s.trace.append(("submit", t.idx, self.actor._id, self.name, t.fault))
        return ref


def _exec(t):
    """Run the real worker method (memoised)."""
    if t.started:
        return
    t.started = True
    a = t.actor
    if a._dead:
        t.error = RayActorError("actor died")
        return
    if t.fault == "death":
        a._dead = True
        t.error = RayActorError("actor died (injected)")
        return
    poison = t.fault == "raise"
    akey = b""
    if a._inst is not None:
        try:
            akey = _key(_dump(a._inst.__dict__))
        except Exception:
            akey = None
    key = None
    if akey is not None:
        key = (a._cls.__name__, t.method, _key(a._dump), akey, _key(t.dump), poison,
               tuple(sorted((_key(r.dump) if r.dump else b"") for r in t.refs.values())))
    if key is not None and key in CUR.memo:
        res, state = CUR.memo[key]
        t.result = res
        if a._inst is None:
            ar, kw = _load(a._dump)
            a._inst = a._cls(*ar, **kw)
        a._inst.__dict__.clear()
        a._inst.__dict__.update(_load(state))
        return
    if a._inst is None:
        ar, kw = _load(a._dump)
        a._inst = a._cls(*ar, **kw)
    args, kwargs = _load(t.dump)

    def res(x):
        kind, v = x
        if kind == "val":
            return v
        if poison:
            return _Poison()
        r = t.refs[v.n]
        return _load(r.dump) if r.dump else getret(r)

    try:
        out = getattr(a._inst, t.method)(*[res(x) for x in args], **{k: res(x) for k, x in kwargs.items()})
        t.result = ("ok", _dump(out))
    except Exception as e:
        t.result = ("exc", e)
    if key is not None:
        try:
            CUR.memo[key] = (t.result, _dump(a._inst.__dict__))
        except Exception:
            pass


def getret(ref):
    t = ref.task
    if t.error is not None:
        raise t.error
    kind, v = t.result
    if kind == "exc":
        raise RayError("task failed: %r" % v)
    return _load(v)


def _runnable(t):
    """Can this task have finished by now?  (FIFO per actor; hung tasks block their actor.)"""
    if t.released:
        return True
    if t.actor._dead:
        return True
    for u in t.actor._queue:
        if u is t:
            break
        if not u.released:
            if u.hung:
                return False
            if not _runnable(u):
                return False
    return not t.hung


def _release(t):
    if t.released:
        return
    for u in list(t.actor._queue):
        if u is t:
            break
        if not u.released:
            _release(u)
    t.released = True
    _exec(t)
    if t in t.actor._queue:
        t.actor._queue.remove(t)


def build_module():
    m = types.ModuleType("ray")

    class _Remote:
        def __init__(self, cls):
            self._cls = cls
            self.__name__ = getattr(cls, "__name__", "x")

        def options(self, **k):
            return self

        def remote(self, *a, **k):
            CUR.tick()
            if isinstance(self._cls, type):
                return ActorHandle(self._cls, a, k)
            fn = self._cls

            class _F:
                def run(self, *a, **k):
                    return fn(*a, **k)
            _F.__name__ = "fn_" + self.__name__
            return ActorHandle(_F, (), {}).run.remote(*a, **k)

    def remote(*args, **kw):
        if len(args) == 1 and not kw and callable(args[0]):
            return _Remote(args[0])
        return lambda cls: _Remote(cls)

    def wait(refs, *, num_returns=1, timeout=None, fetch_local=True):
        s = CUR
        s.tick()
        if not isinstance(refs, list):
            raise TypeError("wait() expected a list of ray.ObjectRef")
        if len(refs) == 0:
            return [], []
        if len(refs) != len(set(refs)):
            raise ValueError("Wait requires a list of unique ray_waitables.")
        if num_returns <= 0:
            raise ValueError("Invalid number of objects to return %d." % num_returns)
        if num_returns > len(refs):
            raise ValueError("num_returns cannot be greater than the number of ray_waitables provided to ray.wait.")
        cand = [r for r in refs if r.task is not None and not r.task.released and _runnable(r.task)]
        done = [r for r in refs if r.task is None or r.task.released]
        if timeout is None and len(done) + len(cand) < num_returns:
            raise Deadlock("ray.wait without timeout on a task that never finishes")
        lo = max(0, num_returns - len(done)) if timeout is None else 0
        # at most num_returns are reported ready
        chosen = s.chooser.subset(cand, lo)
        for r in chosen:
            _release(r.task)
        ready = [r for r in refs if r.task is None or r.task.released][:num_returns]
        rest = [r for r in refs if r not in ready]
        s.trace.append(("wait", [r.task.idx if r.task else -1 for r in refs],
                        [r.task.idx if r.task else -1 for r in ready]))
        return list(ready), list(rest)

    def get(refs, *, timeout=None):
        s = CUR
        s.tick()
        if isinstance(refs, list):
            return [get(r, timeout=timeout) for r in refs]
        if refs.task is None:
            return _load(refs.dump)
        if not refs.task.released:
            if not _runnable(refs.task):
                if timeout is not None:
                    raise GetTimeoutError("timeout")
                raise Deadlock("ray.get on a task that never finishes")
            _release(refs.task)
        return getret(refs)

    def put(obj):
        r = ObjectRef(CUR, dump=_dump(obj))
        CUR.refs[r.n] = r
        return r

    def kill(actor, no_restart=True):
        CUR.tick()
        actor._dead = True
        CUR.trace.append(("kill", actor._id))

    def init(*a, **k):
        CUR.inited = True
        CUR.trace.append(("init",))
        return types.SimpleNamespace(address_info={})

    def shutdown(*a, **k):
        if CUR is not None:
            CUR.inited = False

    m.remote, m.wait, m.get, m.put, m.kill, m.init, m.shutdown = remote, wait, get, put, kill, init, shutdown
    m.is_initialized = lambda: bool(CUR and CUR.inited)
    m.cluster_resources = m.available_resources = lambda: {"CPU": 8.0}
    m.cancel = lambda ref, **k: kill(ref.task.actor)
    m.nodes = lambda: []
    m.ObjectRef = ObjectRef
    ex = types.ModuleType("ray.exceptions")
    ex.RayError, ex.RayActorError, ex.GetTimeoutError, ex.RayTaskError = RayError, RayActorError, GetTimeoutError, RayError
    ex.ActorDiedError = RayActorError
    m.exceptions = ex
    m.__version__ = "2.59.0"
    m.__spec__ = None
    sys.modules["ray"] = m
    sys.modules["ray.exceptions"] = ex
    return m
