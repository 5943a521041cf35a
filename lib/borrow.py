"""Cases of other properties' sub-tests, performed for what they do to memory: the results they compare are those properties' matter."""
import importlib
from hypothesis import strategies as st
from client import Crash, Violation
def pool(pids, skip=()):
    o = {}
    for p in pids:
        l = importlib.import_module(p.lower()).SUBS
        for s in l:
            if s.n >= 0.02 * max(x.n for x in l) and p + "/" + s.name not in skip: o[p + "/" + s.name] = s
    return o
def cases(pids, skip=()): return st.one_of(*[s.strategy.map(lambda c, k=k: [k, c]) for k, s in pool(pids, skip).items()])
def perform(s, c, crash):
    """runs the case; a wrong result is no matter here, a crash or hang is raised again when asked for. False when it did not run to its end"""
    p, n = c[0].split("/"); sub = next(x for x in importlib.import_module(p.lower()).SUBS if x.name == n)
    try: sub.check(s, c[1])
    except Crash:
        if crash: raise
        return False
    except Violation: return True
    return True
