"""Bounded stand-ins and counterexample replay: run the REAL code (CPython, /repo/src) and compare with the oracle.

A case is (label, thunk).  thunk() returns None when the real code agrees with the oracle, or a dict
describing the failing input.  Labels are deterministic, so a replay file (property, label, tier, seed) re-runs it.
"""
import os, sys, json, time, traceback, importlib, signal, random
from fractions import Fraction as Fr
sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.environ.get('AJDMOM_SRC') or os.path.join(REPO, 'src')
if SRC not in sys.path: sys.path.insert(0, SRC)
import mpmath as mp
from oracle import models as O, process as PR
from oracle.peval import value, close
from oracle.process import to_mp

def mod(name):
    return importlib.import_module('ajdmom.' + name if name else 'ajdmom')

class Missing(Exception):
    """an internal helper the case wants does not exist any more (refactoring): case skipped"""

def fn(modname, name):
    m = mod(modname)
    if not hasattr(m, name): raise Missing(f'{modname}.{name}')
    return getattr(m, name)

def sh(x, n=28):
    try: return mp.nstr(mp.mpf(x), n)
    except Exception: return repr(x)[:200]

def diff(got, want, inp, rel=mp.mpf(10) ** -22, abs_=mp.mpf(10) ** -28):
    if close(got, want, rel, abs_): return None
    return {'input': inp, 'expected': sh(want), 'actual': sh(got)}

def fdiff(got, want, scale, inp, rel=1e-10):
    if abs(mp.mpf(got) - want) <= rel * (abs(scale) + abs(want)) + 1e-13: return None
    return {'input': inp, 'expected': sh(want), 'actual': sh(got)}

class TO(Exception): pass

def run_case(label, thunk, limit=240):
    t = time.time()
    def h(*a): raise TO()
    old = signal.signal(signal.SIGALRM, h)
    signal.alarm(limit)
    try:
        r = thunk()
        st = 'ok' if r is None else 'fail'
    except Missing as e:
        st, r = 'missing', {'missing': str(e)}
    except TO:
        st, r = 'timeout', {'timeout': limit}
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inrepo = any(REPO in f.filename for f in tb)
        st = 'fail' if inrepo else 'fail'
        r = {'input': label, 'expected': 'a value', 'actual': 'raised ' + repr(e)[:300],
             'traceback': traceback.format_exc()[-1500:]}
    finally:
        signal.alarm(0); signal.signal(signal.SIGALRM, old)
    return (label, st, r, time.time() - t)

_cases = None
def _w(i):
    return run_case(*_cases[i])

def run_all(cases, procs=8, seconds=7200):
    """[(label,thunk)] -> list of results; forked workers"""
    global _cases
    _cases = cases
    import multiprocessing as mpc
    if len(cases) <= 2 or procs == 1: return [_w(i) for i in range(len(cases))]
    with mpc.get_context('fork').Pool(min(procs, len(cases))) as p:
        until = time.time() + seconds
        jobs = [p.apply_async(_w, (i,)) for i in range(len(cases))]
        out = []
        for i, j in enumerate(jobs):
            try: out.append(j.get(max(0.01, until - time.time())))
            except mpc.TimeoutError: out.append((cases[i][0], 'timeout', {'timeout': seconds}, seconds))
        return out
