"""Reference (true) values for every quantity the package documents, from the model definitions only."""
import math
from functools import lru_cache
import mpmath as mp
from .process import *

def central(raw, n, mean):
    return sum(math.comb(n, i) * (-mean) ** i * raw(n - i) for i in range(n + 1))

class Heston:
    """dv = k(theta-v)dt + sigma sqrt(v) dw; y = mu h - IV/2 + rho I + sqrt(1-rho^2) I*  (+ CPP jumps)"""
    def __init__(self, P, jump=None):
        self.P = P = {a: to_mp(b) for a, b in P.items()}
        k, th, s, rho, mu = P['k'], P['theta'], P['sigma'], P['rho'], P['mu']
        drift = [{(0, 0): k * th, (1, 0): -k}, {(0, 0): mu, (1, 0): -mp.mpf(1) / 2}]
        diff = {(0, 0): {(1, 0): s * s}, (1, 1): {(1, 0): mp.mpf(1)}, (0, 1): {(1, 0): rho * s}}
        jumps = []
        if jump:
            lam, mj, sj = P['lambda'], P['mu_j'], P['sigma_j']
            jumps = [(lam, lambda b: norm_mom(b[1], mj, sj), (1,))]
        self.pr = Affine(2, drift, diff, jumps)
        self._c = {}
    def cond_poly(self, n):
        """E[y^n | v0] as polynomial in v0 : dict deg -> coef"""
        if n not in self._c:
            u = self.pr.semigroup({(0, n): mp.mpf(1)}, self.P['h'])
            r = {}
            for (a, b), c in u.items():
                if b == 0: r[a] = r.get(a, 0) + c
            self._c[n] = r
        return self._c[n]
    def stat(self, n):
        P = self.P
        return gamma_mom(n, P['theta'], P['sigma'], P['k'])
    def raw(self, n):
        return sum(c * self.stat(a) for a, c in self.cond_poly(n).items())
    def cmom(self, n): return central(self.raw, n, self.raw(1))
    def cond_raw(self, n, v0): return sum(c * v0 ** a for a, c in self.cond_poly(n).items())
    def cond_cmom(self, n, v0): return central(lambda j: self.cond_raw(j, v0), n, self.cond_raw(1, v0))
    def yy(self, l1, l2):
        """E[y_1^l1 y_2^l2]"""
        q = {(a, l1): c for a, c in self.cond_poly(l2).items()}
        u = self.pr.semigroup(q, self.P['h'])
        return sum(c * self.stat(a) for (a, b), c in u.items() if b == 0)
    def cov(self, l1, l2): return self.yy(l1, l2) - self.raw(l1) * self.raw(l2)

class TwoFactor:
    def __init__(self, P, jump=None):
        self.P = P = {a: to_mp(b) for a, b in P.items()}
        mu = P['mu']
        o = mp.mpf(1)
        k1, t1, s1, k2, t2, s2 = (P[x] for x in ('k1', 'theta1', 'sigma1', 'k2', 'theta2', 'sigma2'))
        drift = [{(0, 0, 0): k1 * t1, (1, 0, 0): -k1}, {(0, 0, 0): k2 * t2, (0, 1, 0): -k2},
                 {(0, 0, 0): mu, (1, 0, 0): -o / 2, (0, 1, 0): -o / 2}]
        diff = {(0, 0): {(1, 0, 0): s1 * s1}, (1, 1): {(0, 1, 0): s2 * s2}, (2, 2): {(1, 0, 0): o, (0, 1, 0): o}}
        jumps = []
        if jump:
            lam, mj, sj = P['lambda'], P['mu_j'], P['sigma_j']
            jumps = [(lam, lambda b: norm_mom(b[2], mj, sj), (2,))]
        self.pr = Affine(3, drift, diff, jumps)
        self._c = {}
    def cond_poly(self, n):
        if n not in self._c:
            u = self.pr.semigroup({(0, 0, n): mp.mpf(1)}, self.P['h'])
            self._c[n] = {e: c for e, c in u.items() if e[2] == 0}
        return self._c[n]
    def stat(self, a, b):
        P = self.P
        return gamma_mom(a, P['theta1'], P['sigma1'], P['k1']) * gamma_mom(b, P['theta2'], P['sigma2'], P['k2'])
    def raw(self, n): return sum(c * self.stat(e[0], e[1]) for e, c in self.cond_poly(n).items())
    def cmom(self, n): return central(self.raw, n, self.raw(1))
    def yy(self, l1, l2):
        q = {(e[0], e[1], l1): c for e, c in self.cond_poly(l2).items()}
        u = self.pr.semigroup(q, self.P['h'])
        return sum(c * self.stat(e[0], e[1]) for e, c in u.items() if e[2] == 0)
    def cov(self, l1, l2): return self.yy(l1, l2) - self.raw(l1) * self.raw(l2)

def ito1(orders, P):
    """E[IE^a I^b I*^c | v0] over [0,t]; IE = int e^{ks} sqrt(v) dw^v, I, I* (independent), no jumps."""
    a, b, c = orders
    P = {x: to_mp(y) for x, y in P.items()}
    k, th, s = P['k'], P['theta'], P['sigma']
    o = mp.mpf(1)
    # state v, X = e^{-kt} IE, I, I*
    drift = [{(0, 0, 0, 0): k * th, (1, 0, 0, 0): -k}, {(0, 1, 0, 0): -k}, {}, {}]
    V = (1, 0, 0, 0)
    diff = {(0, 0): {V: s * s}, (1, 1): {V: o}, (2, 2): {V: o}, (3, 3): {V: o}, (0, 1): {V: s}, (0, 2): {V: s}, (1, 2): {V: o}}
    u = Affine(4, drift, diff).semigroup({(0, a, b, c): o}, P['t'])
    return mp.e ** (a * k * P['t']) * p_eval(u, (P['v0'], 0, 0, 0))

def ito2(orders, P):
    """E[IE1^a I1^b IE2^c I2^d I*^e | v1,v2]"""
    P = {x: to_mp(y) for x, y in P.items()}
    o = mp.mpf(1)
    d = 7
    u_ = lambda i: unit(d, i)
    z = (0,) * d
    V1, V2 = u_(0), u_(1)
    k1, t1, s1, k2, t2, s2 = (P[x] for x in ('k1', 'theta1', 'sigma1', 'k2', 'theta2', 'sigma2'))
    # v1 v2 X1 I1 X2 I2 I*
    drift = [{z: k1 * t1, V1: -k1}, {z: k2 * t2, V2: -k2}, {u_(2): -k1}, {}, {u_(4): -k2}, {}, {}]
    diff = {(0, 0): {V1: s1 * s1}, (2, 2): {V1: o}, (3, 3): {V1: o}, (0, 2): {V1: s1}, (0, 3): {V1: s1}, (2, 3): {V1: o},
            (1, 1): {V2: s2 * s2}, (4, 4): {V2: o}, (5, 5): {V2: o}, (1, 4): {V2: s2}, (1, 5): {V2: s2}, (4, 5): {V2: o},
            (6, 6): {V1: o, V2: o}}
    a, b, c, dd, e = orders
    u = Affine(d, drift, diff).semigroup({(0, 0, a, b, c, dd, e): o}, P['t'])
    return mp.e ** ((a * k1 + c * k2) * P['t']) * p_eval(u, (P['v1'], P['v2'], 0, 0, 0, 0, 0))

def _shift(p, i, c):
    """p(x + c e_i)"""
    r = {}
    for a, v in p.items():
        n = a[i]
        for j in range(n + 1):
            b = list(a); b[i] = j
            b = tuple(b)
            r[b] = r.get(b, 0) + v * math.comb(n, j) * c ** (n - j)
    return r

def backward_with_jumps(pr, p, T, times, sizes, i=0):
    """E[p(X_T)|x0] when component i jumps by sizes at times"""
    t = to_mp(T)
    js = sorted(zip([to_mp(x) for x in times], [to_mp(x) for x in sizes]), key=lambda z: z[0])
    cur = p
    for s, J in reversed(js):
        if s > t: continue
        if t > s: cur = pr.semigroup(cur, t - s)
        t = s
        cur = _shift(cur, i, J)
    if t > 0: cur = pr.semigroup(cur, t)
    return cur

def ito_cond(orders, P, times, sizes):
    """E[IE^a I^b I*^c | v0, jumps]"""
    a, b, c = orders
    P = {x: to_mp(y) for x, y in P.items()}
    k, th, s = P['k'], P['theta'], P['sigma']
    o = mp.mpf(1)
    drift = [{(0, 0, 0, 0): k * th, (1, 0, 0, 0): -k}, {(0, 1, 0, 0): -k}, {}, {}]
    V = (1, 0, 0, 0)
    diff = {(0, 0): {V: s * s}, (1, 1): {V: o}, (2, 2): {V: o}, (3, 3): {V: o}, (0, 1): {V: s}, (0, 2): {V: s}, (1, 2): {V: o}}
    u = backward_with_jumps(Affine(4, drift, diff), {(0, a, b, c): o}, P['t'], times, sizes)
    return mp.e ** (a * k * P['t']) * p_eval(u, (P['v0'], 0, 0, 0))

class VJ:
    """SVVJ / SVIJ / SVCJ given v0 and variance jump path.  kind in 'vv','ij','cj'"""
    def __init__(self, P, times, sizes, kind='vv'):
        self.P = P = {a: to_mp(b) for a, b in P.items()}
        self.times, self.sizes, self.kind = times, [to_mp(x) for x in sizes], kind
        k, th, s, rho, mu = P['k'], P['theta'], P['sigma'], P['rho'], P['mu']
        drift = [{(0, 0): k * th, (1, 0): -k}, {(0, 0): mu, (1, 0): -mp.mpf(1) / 2}]
        diff = {(0, 0): {(1, 0): s * s}, (1, 1): {(1, 0): mp.mpf(1)}, (0, 1): {(1, 0): rho * s}}
        jumps = []
        if kind == 'ij':
            jumps = [(P['lmbd_s'], lambda b: norm_mom(b[1], P['mu_s'], P['sigma_s']), (1,))]
        self.pr = Affine(2, drift, diff, jumps)
        self._c = {}
    def raw(self, n):
        if n in self._c: return self._c[n]
        P = self.P
        v0 = P['v0']
        def diffu(m):
            u = backward_with_jumps(self.pr, {(0, m): mp.mpf(1)}, P['h'], self.times, self.sizes)
            return p_eval(u, (v0, mp.mpf(0)))
        if self.kind != 'cj':
            r = diffu(n)
        else:
            # add independent normals N(mu_s + rho_J J_i, sigma_s^2)
            mean = sum((P['mu_s'] + P['rho_J'] * J for J in self.sizes), mp.mpf(0))
            sd = mp.sqrt(len(self.sizes)) * P['sigma_s']
            r = sum(math.comb(n, j) * diffu(n - j) * norm_mom(j, mean, sd) for j in range(n + 1))
        self._c[n] = r
        return r
    def cmom(self, n): return central(self.raw, n, self.raw(1))

class SVCJ:
    """unconditional in jumps: intensity lmbd, J^v~Exp(mu_v), J^s|J^v ~ N(mu_s + rhoJ J^v, sigma_s^2)"""
    def __init__(self, P):
        self.P = P = {a: to_mp(b) for a, b in P.items()}
        k, th, s, rho, mu = P['k'], P['theta'], P['sigma'], P['rho'], P['mu']
        drift = [{(0, 0): k * th, (1, 0): -k}, {(0, 0): mu, (1, 0): -mp.mpf(1) / 2}]
        diff = {(0, 0): {(1, 0): s * s}, (1, 1): {(1, 0): mp.mpf(1)}, (0, 1): {(1, 0): rho * s}}
        def jm(b):
            a, c = b
            r = mp.mpf(0)
            for i in range(c + 1):
                r += math.comb(c, i) * P['rhoJ'] ** i * exp_mom(a + i, P['mu_v']) * norm_mom(c - i, P['mu_s'], P['sigma_s'])
            return r
        self.pr = Affine(2, drift, diff, [(P['lmbd'], jm, (0, 1))])
        self._c = {}
    def cond_poly(self, n):
        if n not in self._c:
            u = self.pr.semigroup({(0, n): mp.mpf(1)}, self.P['h'])
            r = {}
            for (a, b), c in u.items():
                if b == 0: r[a] = r.get(a, 0) + c
            self._c[n] = r
        return self._c[n]
    def cond_raw(self, n): return sum(c * self.P['v0'] ** a for a, c in self.cond_poly(n).items())
    def cond_cmom(self, n): return central(self.cond_raw, n, self.cond_raw(1))
    def raw(self, n):
        P = self.P
        return sum(c * srjd_stationary(a, P['k'], P['theta'], P['sigma'], P['lmbd'], P['mu_v']) for a, c in self.cond_poly(n).items())
    def cmom(self, n): return central(self.raw, n, self.raw(1))

def svcj_joint(orders, P):
    """E[IE^a I^b I*^c IEZ^d IZ^e IZ*^f | v0], IZ* built from N(mu_s, sigma_s^2) at the common jump times"""
    a, b, c, d_, e_, f_ = orders
    P = {x: to_mp(y) for x, y in P.items()}
    k, th, s = P['k'], P['theta'], P['sigma']
    o = mp.mpf(1)
    d = 7
    z = (0,) * d
    u_ = lambda i: unit(d, i)
    V = u_(0)
    # v X I I* Z=e^{-kt}IEZ IZ IZ*
    drift = [{z: k * th, V: -k}, {u_(1): -k}, {}, {}, {u_(4): -k}, {}, {}]
    diff = {(0, 0): {V: s * s}, (1, 1): {V: o}, (2, 2): {V: o}, (3, 3): {V: o}, (0, 1): {V: s}, (0, 2): {V: s}, (1, 2): {V: o}}
    jm = lambda q: exp_mom(q[0] + q[4] + q[5], P['mu_v']) * norm_mom(q[6], P['mu_s'], P['sigma_s'])
    u = Affine(d, drift, diff, [(P['lmbd'], jm, (0, 4, 5, 6))]).semigroup({(0, a, b, c, d_, e_, f_): o}, P['h'])
    return mp.e ** ((a + d_) * k * P['h']) * p_eval(u, (P['v0'],) + (mp.mpf(0),) * 6)

def ieziziz(orders, P, s, t):
    """E[IEZ_{s,t}^a IZ_{s,t}^b IZ*_{s,t}^c]"""
    P = {x: to_mp(y) for x, y in P.items()}
    s, t = to_mp(s), to_mp(t)
    k = P['k']
    def kap(q):
        a, b, c = q
        ti = (t - s) if a == 0 else (mp.e ** (a * k * t) - mp.e ** (a * k * s)) / (a * k)
        return P['lmbd'] * ti * exp_mom(a + b, P['mu_v']) * norm_mom(c, P.get('mu_s', mp.mpf(0)), P.get('sigma_s', mp.mpf(0)))
    return moments_from_cumulants(kap, orders)

def cpp(n, lamh, mu, sig):
    return moments_from_cumulants(lambda q: lamh * norm_mom(q[0], mu, sig), (n,))

class SRJD:
    def __init__(self, P):
        self.P = P = {a: to_mp(b) for a, b in P.items()}
        k, th, s = P['k'], P['theta'], P['sigma']
        self.pr0 = Affine(1, [{(0,): k * th, (1,): -k}], {(0, 0): {(1,): s * s}})
        if 'lmbd' in P:
            self.pr = Affine(1, [{(0,): k * th, (1,): -k}], {(0, 0): {(1,): s * s}}, [(P['lmbd'], lambda b: exp_mom(b[0], P['mu_v']), (0,))])
    def cond(self, n):
        return p_eval(self.pr.semigroup({(n,): mp.mpf(1)}, self.P['h']), (self.P['v0'],))
    def cond_c(self, n): return central(self.cond, n, self.cond(1))
    def cond2(self, n, times, sizes):
        return p_eval(backward_with_jumps(self.pr0, {(n,): mp.mpf(1)}, self.P['h'], times, sizes), (self.P['v0'],))
    def cond2_c(self, n, times, sizes): return central(lambda j: self.cond2(j, times, sizes), n, self.cond2(1, times, sizes))
    def stat(self, n):
        P = self.P
        return srjd_stationary(n, P['k'], P['theta'], P['sigma'], P['lmbd'], P['mu_v'])
    def stat_c(self, n): return central(self.stat, n, self.stat(1))

def srjd_ie_iez(orders, P):
    """E[IE^a IEZ^b | v0]"""
    a, b = orders
    P = {x: to_mp(y) for x, y in P.items()}
    k, th, s = P['k'], P['theta'], P['sigma']
    o = mp.mpf(1)
    drift = [{(0, 0, 0): k * th, (1, 0, 0): -k}, {(0, 1, 0): -k}, {(0, 0, 1): -k}]
    V = (1, 0, 0)
    diff = {(0, 0): {V: s * s}, (1, 1): {V: o}, (0, 1): {V: s}}
    jm = lambda q: exp_mom(q[0] + q[2], P['mu_v'])
    u = Affine(3, drift, diff, [(P['lmbd'], jm, (0, 2))]).semigroup({(0, a, b): o}, P['h'])
    return mp.e ** ((a + b) * k * P['h']) * p_eval(u, (P['v0'], 0, 0))

def fZ_true(l, o, p, q, k, s, J):
    """sum over all index tuples of prod e^{l k s} J s^o, times prod_{j>=2} e^{p_j k max} max^{q_j}"""
    import itertools
    if len(l) == 0: return mp.mpf(1)
    k = to_mp(k); s = [to_mp(x) for x in s]; J = [to_mp(x) for x in J]
    tot = mp.mpf(0)
    for idx in itertools.product(range(len(J)), repeat=len(l)):
        v = mp.mpf(1); mx = None
        for i, j in enumerate(idx):
            v *= mp.e ** (l[i] * k * s[j]) * J[j] * s[j] ** o[i]
            mx = s[j] if mx is None else max(mx, s[j])
            if i: v *= mp.e ** (p[i - 1] * k * mx) * mx ** q[i - 1]
        tot += v
    return tot
