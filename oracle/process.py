"""Independent oracle: exact moments of affine (jump) diffusions by the generator acting on polynomials.

u(t,x) = E[f(X_t) | X_0 = x] = exp(tG) f for polynomial f.  G maps polynomials of (weighted) degree <= n to
themselves, so exp(tG) f is computed by the Taylor series of the finite-dimensional operator, in
high-precision arithmetic (mpmath, DPS digits).  Nothing here is shared with the code under test.
"""
import math
from fractions import Fraction as Fr
import mpmath as mp
mp.mp.dps = 60
M = mp.mpf

def to_mp(x):
    if isinstance(x, Fr):
        return mp.mpf(x.numerator) / x.denominator
    return mp.mpf(x)

# polynomials: dict exponent-tuple -> mpf
def p_eval(p, x):
    s = mp.mpf(0)
    for a, c in p.items():
        t = c
        for e, v in zip(a, x):
            if e: t = t * v ** e
        s += t
    return s

class Affine:
    """drift[i], diff[(i,j)] (i<=j): polynomials (dict exponent -> coef); jumps: list of (intensity, moment_fn(beta))."""
    def __init__(self, dim, drift, diff, jumps=()):
        self.d = dim
        self.drift = drift
        self.diff = diff
        self.jumps = jumps
        self._cache = {}
        self._jm = {}
    def gen_mono(self, a):
        r = self._cache.get(a)
        if r is not None: return r
        r = {}
        def add(e, c):
            if c == 0: return
            r[e] = r.get(e, mp.mpf(0)) + c
        for i in range(self.d):
            if a[i]:
                b = list(a); b[i] -= 1
                for e, c in self.drift[i].items():
                    add(tuple(x + y for x, y in zip(b, e)), c * a[i])
        for (i, j), pol in self.diff.items():
            b = list(a)
            if i == j:
                if a[i] < 2: continue
                f = mp.mpf(a[i] * (a[i] - 1)) / 2
                b[i] -= 2
            else:
                if a[i] < 1 or a[j] < 1: continue
                f = mp.mpf(a[i] * a[j])
                b[i] -= 1; b[j] -= 1
            for e, c in pol.items():
                add(tuple(x + y for x, y in zip(b, e)), c * f)
        for n, (lam, mom, idx) in enumerate(self.jumps):
            rng = [range(a[i] + 1) if i in idx else (0,) for i in range(self.d)]
            def rec(i, cur):
                if i == self.d:
                    if any(cur):
                        key = (n, tuple(cur))
                        if key not in self._jm: self._jm[key] = mom(tuple(cur))
                        m = self._jm[key]
                        c = 1
                        for x, y in zip(a, cur): c *= math.comb(x, y)
                        add(tuple(x - y for x, y in zip(a, cur)), lam * c * m)
                    return
                for v in rng[i]:
                    rec(i + 1, cur + [v])
            rec(0, [])
        r = {e: c for e, c in r.items() if c != 0}
        self._cache[a] = r
        return r
    def gen(self, p):
        r = {}
        for a, c in p.items():
            for e, v in self.gen_mono(a).items():
                r[e] = r.get(e, mp.mpf(0)) + c * v
        return r
    def semigroup(self, p, t, eps=None):
        """exp(tG) p"""
        if eps is None: eps = mp.mpf(10) ** (-mp.mp.dps + 5)
        # split the time so that the series converges without much cancellation
        t = to_mp(t)
        nsplit = 1
        cur = dict(p)
        for _ in range(nsplit):
            term = dict(cur)
            tot = dict(cur)
            n = 0
            dt = t / nsplit
            while True:
                n += 1
                term = self.gen(term)
                f = dt / n
                mx = mp.mpf(0)
                for e in term:
                    term[e] *= f
                    v = abs(term[e])
                    if v > mx: mx = v
                    tot[e] = tot.get(e, mp.mpf(0)) + term[e]
                if mx < eps and n > 8: break
                if n > 2000: raise RuntimeError('no convergence')
            cur = tot
        return cur

def exp_mom(n, mu):   # E[J^n], J ~ Exp(mean mu)
    return mp.mpf(math.factorial(n)) * mu ** n

def norm_mom(n, mu, sig):
    s = mp.mpf(0)
    for j in range(0, n // 2 + 1):
        s += math.comb(n, 2 * j) * mp.mpf(math.factorial(2 * j)) / (2 ** j * math.factorial(j)) * mu ** (n - 2 * j) * sig ** (2 * j)
    return s

def gamma_mom(n, theta, sigma, k):
    """stationary CIR: shape 2k theta/sigma^2, scale sigma^2/(2k)"""
    r = mp.mpf(1)
    for j in range(n):
        r *= theta + j * sigma ** 2 / (2 * k)
    return r

def srjd_stationary(n, k, theta, sigma, lam, mu_v):
    m = [mp.mpf(1)]
    for i in range(1, n + 1):
        s = (i * k * theta + mp.mpf(i * (i - 1)) / 2 * sigma ** 2) * m[i - 1]
        for j in range(1, i + 1):
            s += lam * math.comb(i, j) * exp_mom(j, mu_v) * m[i - j]
        m.append(s / (i * k))
    return m[n]

def unit(d, i, n=1):
    a = [0] * d; a[i] = n
    return tuple(a)

def moments_from_cumulants(kappa, idx):
    """joint raw moment of multi-index idx from cumulant function kappa(multi-index)"""
    memo = {}
    d = len(idx)
    def m(a):
        if not any(a): return mp.mpf(1)
        if a in memo: return memo[a]
        i = next(j for j in range(d) if a[j])
        b = list(a); b[i] -= 1
        s = mp.mpf(0)
        def rec(j, cur, c):
            nonlocal s
            if j == d:
                cc = list(cur); cc[i] += 1
                s += c * kappa(tuple(cc)) * m(tuple(x - y for x, y in zip(b, cur)))
                return
            for v in range(b[j] + 1):
                rec(j + 1, cur + [v], c * math.comb(b[j], v))
        rec(0, [], 1)
        memo[a] = s
        return s
    return m(tuple(idx))
