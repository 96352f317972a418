RAY = '''"""A small deterministic stand-in for ray: a task runs when it is submitted."""
import sys, types
import numpy as np
import pyebsdindex._ebsd_index_parallel as par
from pyebsdindex import ebsd_index
import simpat
KILL = [0]
class Ref:
    def __init__(s, value=None, exc=None): s.value, s.exc = value, exc
class Method:
    def __init__(s, actor, name): s.actor, s.name = actor, name
    def remote(s, *a, **k):
        a = [x.value if isinstance(x, Ref) else x for x in a]
        k = {n: (x.value if isinstance(x, Ref) else x) for n, x in k.items()}
        if s.name == "findbands" and KILL[0]:
            KILL[0] -= 1
            return Ref(exc=RuntimeError("the worker died"))
        return Ref(getattr(s.actor.obj, s.name)(*a, **k))
class Actor:
    def __init__(s, obj): s.obj = obj
    def __getattr__(s, n): return Method(s, n)
class ActorClass:
    def __init__(s, cls): s.cls = cls
    def options(s, **k): return s
    def remote(s, *a, **k): return Actor(s.cls(*a, **k))
def wait(refs, num_returns=1, timeout=None): return list(refs), []
def get(r):
    if r.exc: raise r.exc
    return r.value
for n in ("GPUWorker", "CPUWorker"):
    setattr(par, n, ActorClass(getattr(par, n).__ray_metadata__.modified_class))
par.ray = types.SimpleNamespace(init=lambda **k: None, shutdown=lambda: None, put=Ref, wait=wait, get=get, kill=lambda a: None)
par.time = types.SimpleNamespace(sleep=lambda s: None)
'''
