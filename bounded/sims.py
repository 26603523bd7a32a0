"""Randomised run-time check of the simulators' contracts (C20) on the real code: admissible parameters drawn at random, the random
number generators replaced by recording ones with heavy-tailed draws."""
import contextlib, math, random, warnings
from .core import *


class Rec:
    """recording generator: normal -> loc + z*scale with z from a fixed stream, Poisson counts from a second stream"""
    def __init__(self, seed, zero=False, pois=None):
        self.rz, self.rp, self.zero, self.pois = random.Random(seed), random.Random(seed + 1), zero, pois
        self.normals, self.counts, self.lams = [], [], []

    def _z(self):
        if self.zero:
            return 0.0
        u = self.rz.random()
        z = self.rz.gauss(0, 1)
        return z * (1 if u < .7 else 4 if u < .9 else 0)

    def normal(self, loc=0.0, scale=1.0, size=None):
        import numpy as np
        if size is None:
            z = self._z()
            self.normals.append((loc, scale, z))
            return loc + z * scale
        n = int(np.prod(size))
        return np.array([self.normal(loc, scale) for _ in range(n)]).reshape(size)

    def standard_normal(self, size=None):
        return self.normal(0.0, 1.0, size)

    def poisson(self, lam=1.0, size=None):
        import numpy as np
        if size is None:
            self.lams.append(lam)
            n = self.rp.randint(0, 4) if self.pois is None else self.pois
            self.counts.append(n)
            return n
        return np.array([self.poisson(lam) for _ in range(int(np.prod(size)))], dtype=int).reshape(size)

    def noncentral_chisquare(self, df, nonc, size=None):
        import numpy as np
        if not df > 0 or not nonc >= 0:
            raise ValueError(f'noncentral_chisquare({df}, {nonc})')
        if size is None:
            return (df + nonc) * (1.0 if self.zero else math.exp(self._z() / 2))
        return np.array([self.noncentral_chisquare(df, nonc) for _ in range(int(np.prod(size)))]).reshape(size)

    def __getattr__(self, n):
        raise Missing('recording generator has no ' + n)


class MathLog:
    def __init__(self, m, log): self.__dict__.update(_m=m, _log=log)
    def __getattr__(self, n): return getattr(self._m, n)
    def sqrt(self, x):
        self._log.append(x)
        return self._m.sqrt(x)


@contextlib.contextmanager
def patched(mods, rec, log):
    import numpy as np
    old = []
    pairs = [(np.random, n, getattr(rec, n)) for n in ('normal', 'standard_normal', 'poisson', 'noncentral_chisquare')]
    for m in mods:
        if hasattr(m, 'rng'): pairs.append((m, 'rng', rec))
        if getattr(m, 'math', None) is math: pairs.append((m, 'math', MathLog(math, log)))
    try:
        for o, n, v in pairs:
            old.append((o, n, getattr(o, n))); setattr(o, n, v)
        yield
    finally:
        for o, n, v in reversed(old): setattr(o, n, v)


SIMPLE = {'r1FSV': ('mdl_1fsv.euler', 1, False), 'r1FSV_iid': ('mdl_1fsv.euler', 1, False), 'r1FSVJ': ('mdl_1fsvj.euler', 1, True),
          'r2FSV': ('mdl_2fsv.euler', 2, False), 'r2FSVJ': ('mdl_2fsvj.euler', 2, True)}
JUMP = {'rSVVJ': 'mdl_svvj.euler', 'rSVIJ': 'mdl_svij.euler', 'rSVCJ': 'mdl_svcj.euler', 'rSRJD': 'mdl_srjd.euler'}


def mods_of(name):
    ms = ['mdl_svvj.euler'] if name in ('rSVIJ', 'rSVCJ') else []
    return [mod(SIMPLE[name][0] if name in SIMPLE else JUMP[name])] + [mod(m) for m in ms]


def go(name, args, seed, zero=False, pois=None):
    """(samples, recorder, logged square roots) or a failure"""
    import numpy as np
    rec, log = Rec(seed, zero, pois), []
    f = fn(SIMPLE[name][0] if name in SIMPLE else JUMP[name], name)
    lab = f'{name}{args}, generator replaced by Rec(seed={seed}{", zero=True" if zero else ""}) of bounded/sims.py'
    a = tuple(dict(x) if isinstance(x, dict) else x for x in args)
    with warnings.catch_warnings():
        warnings.simplefilter('error')
        with patched(mods_of(name), rec, log):
            try:
                y = np.asarray(f(*a), dtype=float)
            except Missing:
                raise
            except Exception as e:
                return None, {'input': lab, 'expected': 'samples', 'actual': 'raised ' + repr(e)[:300]}, log
    N = args[SIZE[name]]
    if a != args:
        return None, {'input': lab, 'expected': 'arguments unchanged', 'actual': str(a)}, log
    if log and min(log) < 0:
        return None, {'input': lab, 'expected': 'no square root of a negative number', 'actual': str(min(log))}, log
    if y.shape != (N,):
        return None, {'input': lab, 'expected': f'{N} samples', 'actual': str(y.shape)}, log
    if not np.all(np.isfinite(y)):
        return None, {'input': lab, 'expected': 'finite samples', 'actual': str(y)}, log
    rec.label = lab
    return y, rec, log


SIZE = {'r1FSV': 2, 'r1FSV_iid': 2, 'r1FSVJ': 2, 'r2FSV': 2, 'r2FSVJ': 2, 'rSVVJ': 9, 'rSVIJ': 12, 'rSVCJ': 12, 'rSRJD': 7}


WIDE = [False]      # also long horizons, many samples, segments and jumps


def wide(rnd, usual, more):
    return rnd.choice(more) if WIDE[0] and rnd.random() < .5 else rnd.choice(usual)


def jump_path(rnd, T, M, border=True):
    n = wide(rnd, range(6), (8, 12, 25))
    ts = set()
    while len(ts) < n:
        u = rnd.random()
        ts.add(T * rnd.randint(1, M) / M if u < .35 and border else T if u < .45 else T * (.001 + .998 * rnd.random()) if u < .9 else T / M * rnd.random() + 1e-9)
        if len(ts) >= n: break
        if rnd.random() < .05: n -= 1
    ts = sorted(ts)
    return tuple(ts), tuple(rnd.choice((.01, .3, 1.7)) * rnd.random() for _ in ts)


def simple_once(name, rnd):
    import numpy as np
    _, two, jumps = SIMPLE[name]
    h = wide(rnd, (1, .3, 2.5), (10, 60.0, 300.0, .001))
    par = {'mu': rnd.uniform(-.3, .3), 'rho': rnd.choice((-1.0, 1.0, 0.0, rnd.uniform(-1, 1)))}
    for i in (('',) if two == 1 else ('1', '2')):
        par.update({'k' + i: rnd.choice((.1, 1.0, 6.0)), 'theta' + i: rnd.choice((0.0, .02, .4)), 'sigma_v' + i: rnd.choice((.1, 1.0, 3.0))})
    if jumps:
        par.update({'lambda': rnd.choice((.5, 5.0)), 'mu_j': rnd.uniform(-.5, .5), 'sigma_j': rnd.choice((0.0, .2))})
    v = lambda: rnd.choice((0.0, 1e-6, .05, .6))
    v0 = v() if two == 1 else (v(), v())
    N, M, seed = wide(rnd, (0, 1, 2, 5, 12), (40, 150)), wide(rnd, (1, 2, 3, 10), (25, 64)), rnd.randint(0, 10 ** 6)
    args = (v0, par, N, M, h)
    y, rec, log = go(name, args, seed)
    if y is None: return rec
    if not jumps: return None
    if any(abs(l - par['lambda'] * h) > 1e-12 for l in rec.lams) or len(rec.lams) != N:
        return {'input': rec.label, 'expected': f'{N} Poisson counts with mean {par["lambda"] * h}', 'actual': str(rec.lams)}
    for d, x in (('mu_j', .25), ('sigma_j', .5)):
        p2 = dict(par); p2[d] += x
        y2, rec2, _ = go(name, (v0, p2, N, M, h), seed)
        if y2 is None: return rec2
        if d == 'mu_j':
            want = x * np.array(rec.counts, dtype=float)
            if not np.allclose(y2 - y, want, atol=1e-9):
                return {'input': rec.label + f' with mu_j raised by {x}', 'expected': f'samples move by {want} (arrivals {rec.counts})', 'actual': str(y2 - y)}
        else:
            ch = [b[2] for a, b in zip(rec.normals, rec2.normals) if a[1] != b[1]]
            if len(ch) != sum(rec.counts) or abs(float(np.sum(y2 - y)) - x * sum(ch)) > 1e-8:
                return {'input': rec.label + f' with sigma_j raised by {x}', 'expected': f'{sum(rec.counts)} jump draws, each entering once', 'actual': f'{len(ch)} draws of sum {sum(ch)}, samples move by {y2 - y}'}
    return None


def jump_args(name, P, times, sizes, S, n, M):
    v0, mu, k, th, sg, rho, T = (P[x] for x in ('v0', 'mu', 'k', 'theta', 'sigma', 'rho', 'T'))
    b = (v0, mu, k, th, sg, rho, T, sizes, times)
    return {'rSVVJ': b + (n, M), 'rSVIJ': b + (S['lambda'], S['mu_s'], S['sigma_s'], n, M), 'rSVCJ': b + (S['mu_s'], S['sigma_s'], S['rho_J'], n, M),
            'rSRJD': (v0, k, th, sg, T, sizes, times, n)}[name]


def exact(name, P, times, sizes):
    """the sample when every draw is at its mean, without price jumps"""
    k, T, th = P['k'], P['T'], P['theta']
    if name == 'rSRJD':
        return th + (P['v0'] - th) * math.exp(-k * T) + sum(J * math.exp(-k * (T - s)) for s, J in zip(times, sizes))
    return P['mu'] * T - .5 * (th * T + (P['v0'] - th) * (1 - math.exp(-k * T)) / k + sum(J * (1 - math.exp(-k * (T - s))) / k for s, J in zip(times, sizes)))


def jump_once(name, rnd):
    import numpy as np
    T, M = wide(rnd, (1.0, .25, 3.0), (12.0, 60.0, .004)), wide(rnd, (1, 2, 3, 5, 10), (25, 64))
    P = {'v0': rnd.choice((1e-6, .05, .6)), 'mu': rnd.uniform(-.3, .3), 'k': rnd.choice((.2, 1.0, 4.0)), 'theta': rnd.choice((.02, .4)),
         'sigma': rnd.choice((.1, .8, 2.0)), 'rho': rnd.choice((-1.0, 1.0, rnd.uniform(-1, 1))), 'T': T}
    if name != 'rSRJD' and rnd.random() < .2: P['v0'] = 0.0
    S = {'lambda': rnd.choice((.5, 3.0)), 'mu_s': rnd.uniform(-.5, .5), 'sigma_s': rnd.choice((0.0, .3)), 'rho_J': rnd.uniform(-1, 1)}
    n, seed = wide(rnd, (0, 1, 2, 4), (15, 40)), rnd.randint(0, 10 ** 6)
    times, sizes = jump_path(rnd, T, M)
    call = lambda S=S, P=P, sizes=sizes, **kw: go(name, jump_args(name, P, times, sizes, S, n, M), seed, **kw)
    y, rec, log = call()
    if y is None: return rec
    if (rec.lams or name == 'rSVIJ') and (any(abs(l - S['lambda'] * T) > 1e-12 for l in rec.lams) or len(rec.lams) != n):
        return {'input': rec.label, 'expected': f'{n} Poisson counts with mean {S["lambda"] * T}', 'actual': str(rec.lams)}
    # every draw at its mean: the exact value, each variance jump once
    z, zr, _ = call(zero=True)
    if z is None: return zr
    want = exact(name, P, times, sizes) + (np.array(zr.counts) * S['mu_s'] if name == 'rSVIJ' else sum(S['mu_s'] + S['rho_J'] * J for J in sizes) if name == 'rSVCJ' else 0)
    if n and not np.allclose(z, want, rtol=1e-10, atol=1e-10):
        return {'input': zr.label, 'expected': str(want), 'actual': str(z)}
    # price jumps enter once
    if name in ('rSVIJ', 'rSVCJ'):
        cnt = np.array(rec.counts, dtype=float) if name == 'rSVIJ' else np.full(n, float(len(times)))
        for d, x in (('mu_s', .25), ('sigma_s', .5)) + ((('rho_J', .5),) if name == 'rSVCJ' else ()):
            S2 = dict(S); S2[d] += x
            y2, rec2, _ = call(S=S2)
            if y2 is None: return rec2
            if d == 'sigma_s':
                ch = [b[2] for a, b in zip(rec.normals, rec2.normals) if a[1] != b[1]]
                if len(ch) != int(cnt.sum()) or abs(float(np.sum(y2 - y)) - x * sum(ch)) > 1e-8:
                    return {'input': rec.label + f' with {d} raised by {x}', 'expected': f'{int(cnt.sum())} jump draws, each entering once', 'actual': f'{len(ch)} draws of sum {sum(ch)}, samples move by {y2 - y}'}
            else:
                want = x * (cnt if d == 'mu_s' else np.full(n, sum(sizes)))
                if not np.allclose(y2 - y, want, atol=1e-9):
                    return {'input': rec.label + f' with {d} raised by {x}', 'expected': f'samples move by {want}', 'actual': str(y2 - y)}
    # the variance path: with zero noise and hardly any reversion, it steps through v0 plus the jumps so far
    if name != 'rSRJD':
        Q = dict(P, k=1e-9, theta=1e-9, v0=1e6 * (1 + rnd.random()))
        big = tuple(1e6 * (.1 + x) for x in sizes)
        y, rec, log = call(P=Q, sizes=big, zero=True)
        if y is None: return rec
        got, lev = [], [Q['v0']]
        for s, J in zip(times, big):
            if s < T * (1 - 1e-9): lev.append(lev[-1] + J)
        for x in log:
            if x > 1e3 and (not got or abs(x / got[-1] - 1) > 1e-6): got.append(x)
        want = lev * n
        want = [x for i, x in enumerate(want) if i == 0 or abs(x / want[i - 1] - 1) > 1e-6]
        if got and n and (len(got) != len(want) or any(abs(a / b - 1) > 1e-5 for a, b in zip(got, want))):
            return {'input': rec.label, 'expected': f'variance runs through {want}', 'actual': f'square roots taken of {got}'[:600]}
    else:                       # same path, one jump changed by d: the mean-draw sample moves by d times the decay since
        for i, s in enumerate(times):
            s2 = list(sizes); s2[i] += .5
            y2, rec2, _ = call(sizes=tuple(s2), zero=True)
            if y2 is None: return rec2
            want = .5 * math.exp(-P['k'] * (T - s))
            if n and not np.allclose(y2 - z, want, atol=1e-9):
                return {'input': rec2.label, 'expected': f'sample moves by {want} when jump {i} grows by .5', 'actual': str(y2 - z)}
    return None


def helper_once(name, rnd):
    """jump sums of a path"""
    T, M = rnd.choice((1.0, .25, 3.0)), rnd.choice((1, 2, 5))
    times, sizes = jump_path(rnd, T, M)
    t = rnd.choice((0.0, T / 2, T, rnd.random() * T) + times)
    k = rnd.choice((.2, 1.0, 4.0))
    f = fn('mdl_svvj.euler', name)
    got = f(t, sizes, times) if name == 'IZ' else f(t, sizes, times, k)
    want = sum(J * (math.exp(k * s) if name == 'IEZ' else 1) for s, J in zip(times, sizes) if s <= t)
    if abs(got - want) > 1e-9 * (1 + abs(want)):
        return {'input': f'{name}({t}, {sizes}, {times}{", %s" % k if name == "IEZ" else ""})', 'expected': str(want), 'actual': str(got)}


def step_once(name, rnd):
    import numpy as np
    rec, log = Rec(rnd.randint(0, 10 ** 6)), []
    v0, dt, k, th, sg = rnd.choice((0.0, .05, 2.0)), rnd.choice((0.0, .1, 1.0, 30.0)), rnd.choice((.2, 4.0)), rnd.choice((.02, .4)), rnd.choice((.1, 2.0, 9.0))
    if name == 'rSRD':
        v0, dt = v0 + 1e-6, dt + 1e-3
        args, m = (v0, dt, k, th, sg), mod('mdl_srjd.euler')
    else:
        args, m = (v0, rnd.random(), dt, k, th, sg), mod('mdl_svvj.euler')
    f = fn(m.__name__[7:], name)
    with patched([m], rec, log):
        r = f(*args)
    v = r if name == 'rSRD' else r[3]
    if not (v >= 0 and math.isfinite(v)) or (log and min(log) < 0):
        return {'input': f'{name}{args}', 'expected': 'variance not negative', 'actual': str(r)}


def once(name, rnd):
    if name in SIMPLE: return simple_once(name, rnd)
    if name in JUMP: return jump_once(name, rnd)
    if name == 'rIEII': return jump_once('rSVVJ', rnd)
    if name in ('IZ', 'IEZ'): return helper_once(name, rnd)
    return step_once(name, rnd)


def search(name, seed, tries, seconds=30):
    import time
    t0, ran, rnd = time.time(), 0, random.Random(seed)
    for _ in range(tries):
        if time.time() - t0 > seconds: break
        try:
            WIDE[0] = ran % 2 == 1
            r = once(name, rnd)
        except Missing as e:
            return {'ran': ran, 'ok': ran, 'skip': str(e)}
        finally:
            WIDE[0] = False
        ran += 1
        if r: return {'ran': ran, 'ok': ran - 1, 'witness': r}
    return {'ran': ran, 'ok': ran}


NAMES = list(SIMPLE) + list(JUMP) + ['IZ', 'IEZ', 'incIEII', 'rSRD']


def cases(tier):
    out = []
    n = 60 if tier == 'quick' else 1500
    def case(name, s):
        def f():
            rnd = random.Random(s)
            for _ in range(n):
                r = once(name, rnd)
                if r: return r
        return f
    for name in NAMES:
        for s in (1, 2):
            out.append((f'{name} random inputs {s}', case(name, s)))
    return out
