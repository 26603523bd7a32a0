"""Bounded cases per property.  tier: 'quick' or 'thorough'."""
import itertools, math, random, copy, os, tempfile, ast, csv, io, contextlib
from fractions import Fraction as F
import mpmath as mp
from .core import *
from .params import *
from oracle import models as O
from oracle.process import norm_mom, gamma_mom, exp_mom, p_eval

def orders(dim, tot):
    return [o for o in itertools.product(range(tot + 1), repeat=dim) if sum(o) <= tot]

def val(p, P, **kw): return value(p, P, **kw)

def cmp_poly(label, get, want, P, names=None, jumps=None, **kw):
    def f():
        p = get()
        before = dict(p), tuple(p.keyfor)
        for K in p: hash(K)
        return diff(val(p, P, jumps=jumps), want(), f'{label} at {show(P)}' + (f' jumps {jumps}' if jumps else ''), **kw)
    return f

def show(P): return '{' + ', '.join(f'{k}={v}' for k, v in P.items()) + '}'

# ------------------------------------------------------------------ C01 / C02 (polynomial class)
def rnd_poly(rng, names, n=5, nested=False, Poly=None):
    d = {}
    for _ in range(rng.randint(0, n)):
        key = tuple(rng.randint(-3, 3) for _ in names)
        d[key] = F(rng.randint(-4, 4) or 1, rng.randint(1, 5))
    p = Poly(d); p.set_keyfor(names)
    return p

def ev(d, pt):
    return sum((c * math.prod(F(x) ** e for x, e in zip(pt, k)) for k, c in d.items()), F(0))

def ref_add(a, b, s=1):
    r = dict(a)
    for k, c in b.items(): r[k] = r.get(k, 0) + s * c
    return {k: c for k, c in r.items() if c != 0}

def ref_mul(a, b):
    r = {}
    for k1, c1 in a.items():
        for k2, c2 in b.items():
            k = tuple(x + y for x, y in zip(k1, k2)); r[k] = r.get(k, 0) + c1 * c2
    return {k: c for k, c in r.items() if c != 0}

def C01(tier):
    Poly = fn('poly', 'Poly')
    cases = []
    N = 60 if tier == 'quick' else 1500
    def one(seed):
        def f():
            rng = random.Random(seed)
            d = rng.randint(1, 4)
            names = ['x%d' % i for i in range(d)]
            a = rnd_poly(rng, names, Poly=Poly); b = rnd_poly(rng, names, Poly=Poly)
            if rng.random() < .4:    # force cancellation
                for k in list(a)[:2]: b[k] = rng.choice([1, -1]) * a[k]
            c = F(rng.randint(-3, 3), rng.randint(1, 3)); n = rng.randint(1, 4)
            sa, sb = dict(a), dict(b)
            tests = [('a+b', lambda: a + b, ref_add(sa, sb)), ('a-b', lambda: a - b, ref_add(sa, sb, -1)), ('a*b', lambda: a * b, ref_mul(sa, sb)),
                     ('c*a', lambda: c * a, {k: v * c for k, v in sa.items() if v * c != 0}), ('a-a', lambda: a - a, {}), ('a+a', lambda: a + a, {k: 2 * v for k, v in sa.items()}),
                     ('a*a', lambda: a * a, ref_mul(sa, sa))]
            pw = sa
            for _ in range(n - 1): pw = ref_mul(pw, sa)
            tests.append((f'a**{n}', lambda: a ** n, pw))
            for lab, g, want in tests:
                r = g()
                if dict(r) != want or tuple(r.keyfor) != tuple(names):
                    return {'input': f'{lab} a={sa} b={sb} c={c}', 'expected': str(want), 'actual': f'{dict(r)} keyfor={r.keyfor}'}
                if dict(a) != sa or dict(b) != sb or tuple(a.keyfor) != tuple(names) or tuple(b.keyfor) != tuple(names):
                    return {'input': f'{lab} a={sa} b={sb}', 'expected': 'operands unchanged', 'actual': f'a={dict(a)} b={dict(b)}'}
                # result must not share storage with the operands
                r[(99,) * d] = F(1)
                if dict(a) != sa or dict(b) != sb: return {'input': lab, 'expected': 'result independent of operands', 'actual': 'operand changed when result changed'}
            m = Poly(sa); m.set_keyfor(names)
            m.merge(b)
            if dict(m) != ref_add(sa, sb) or dict(b) != sb or tuple(m.keyfor) != tuple(names):
                return {'input': f'merge a={sa} b={sb}', 'expected': str(ref_add(sa, sb)), 'actual': str(dict(m))}
            m = Poly(sa); m.set_keyfor(names); m.merge(m) if False else None
        return f
    for s in range(N): cases.append((f'ring ops, random instance {s}', one(s)))
    return cases

def C02(tier):
    Poly = fn('poly', 'Poly')
    cases = []
    def mism(seed):
        def f():
            rng = random.Random(seed)
            d = rng.randint(1, 4)
            n1 = ['x%d' % i for i in range(d)]
            kind = seed % 5
            if kind == 0: n2 = n1 + ['y']
            elif kind == 1: n2 = n1[:-1] + ['z']
            elif kind == 2: n2 = (n1[::-1] if d > 1 else ['q'])
            elif kind == 3: n2 = n1[:-1]
            else: n2 = n1
            a = rnd_poly(rng, n1, Poly=Poly); b = rnd_poly(rng, n2, Poly=Poly)
            if kind == 4: b = rng.choice([3, {(0,) * d: F(1)}, None, 'x', F(1, 2)])
            sa, sb = dict(a), (dict(b) if kind != 4 else copy.copy(b))
            for lab, g in (('+', lambda: a + b), ('-', lambda: a - b), ('*', lambda: a * b), ('merge', lambda: a.merge(b))):
                try: r = g()
                except (NotImplementedError, TypeError): r = None
                else: return {'input': f'{lab}: {sa} over {n1} with {sb} over {n2}', 'expected': 'an error', 'actual': repr(r)}
                if dict(a) != sa or tuple(a.keyfor) != tuple(n1) or (kind != 4 and (dict(b) != sb or tuple(b.keyfor) != tuple(n2))) or (kind == 4 and b != sb):
                    return {'input': lab, 'expected': 'operands unchanged after refusal', 'actual': f'{dict(a)}'}
            for e in (0, -1, -2):
                try: a ** e
                except (NotImplementedError, TypeError, ValueError): pass
                else: return {'input': f'a**{e}', 'expected': 'an error', 'actual': 'accepted'}
                if dict(a) != sa: return {'input': f'a**{e}', 'expected': 'unchanged', 'actual': str(dict(a))}
        return f
    N = 40 if tier == 'quick' else 600
    for s in range(N): cases.append((f'mismatched operands, random instance {s}', mism(s)))
    def nonint():
        a = Poly({(1,): F(1)}); a.set_keyfor(['x'])
        for e in (1.5, '2', None, F(1, 2)):
            try: r = a ** e
            except Exception: continue
            return {'input': f'a**{e!r}', 'expected': 'an error', 'actual': repr(r)}
    cases.append(('non-integer powers', nonint))
    def mp_(seed):
        def f():
            rng = random.Random(seed)
            d1, d2 = rng.randint(1, 3), rng.randint(1, 3)
            a = rnd_poly(rng, ['a%d' % i for i in range(d1)], Poly=Poly); b = rnd_poly(rng, ['b%d' % i for i in range(d2)], Poly=Poly)
            k = rng.randint(max(d1, d2), d1 + d2 + 1)
            def idx(dd):
                pos = rng.sample(range(k), dd); l = [-1] * k
                for i, q in enumerate(pos): l[q] = i
                return l
            i1, i2 = idx(d1), idx(d2)
            names = ['n%d' % i for i in range(k)]
            want = {}
            for k1, c1 in a.items():
                for k2, c2 in b.items():
                    key = tuple((k1[x] if x >= 0 else 0) + (k2[y] if y >= 0 else 0) for x, y in zip(i1, i2))
                    want[key] = want.get(key, 0) + c1 * c2
            want = {x: y for x, y in want.items() if y != 0}
            sa, sb = dict(a), dict(b)
            j1, j2 = list(i1), list(i2)
            r = a.mul_poly(b, (j1, j2), names)
            if dict(r) != want or tuple(r.keyfor) != tuple(names) or dict(a) != sa or dict(b) != sb or j1 != i1 or j2 != i2:
                return {'input': f'mul_poly {sa} * {sb} idx {i1},{i2}', 'expected': str(want), 'actual': f'{dict(r)} {r.keyfor}'}
        return f
    for s in range(N): cases.append((f'mul_poly, random instance {s}', mp_(s)))
    return cases

# ------------------------------------------------------------------ C03
def C03(tier):
    cases = []
    nmax = 6 if tier == 'quick' else 9
    def comb_():
        comb = fn('utils', 'comb')
        for n in range(nmax + 1):
            for parts in range(1, 5):
                for ns in itertools.product(range(n + 1), repeat=parts):
                    if sum(ns) != n: continue
                    w = math.factorial(n) // math.prod(math.factorial(x) for x in ns)
                    arg = list(ns)
                    g = comb(n, arg)
                    if g != w or arg != list(ns): return {'input': f'comb({n},{list(ns)})', 'expected': w, 'actual': g}
    cases.append(('comb', comb_))
    def mi():
        g = fn('utils', 'multilevel_index')
        for n in range(1, 5):
            for m in range(1, 5 if n < 4 or tier != 'quick' else 4):
                r = [tuple(x) for x in g(n, m)]
                w = list(itertools.product(range(m), repeat=n))
                if sorted(r) != sorted(w): return {'input': f'multilevel_index({n},{m})', 'expected': str(w)[:200], 'actual': str(r)[:200]}
    cases.append(('multilevel_index', mi))
    def mc():
        g = fn('utils', 'multilevel_comb')
        for n in range(1, 6):
            for m in range(0, nmax):
                r = g(n, m)
                w = [x for x in itertools.product(range(m + 1), repeat=n) if sum(x) == m]
                if sorted(tuple(x) for x in r) != sorted(w): return {'input': f'multilevel_comb({n},{m})', 'expected': str(w)[:200], 'actual': str(r)[:200]}
    cases.append(('multilevel_comb', mc))
    def db():
        g = fn('utils', 'dbfactorial')
        for n in range(0, 30):
            w = math.prod(range(n, 0, -2)) if n else 1
            if g(n) != w: return {'input': f'dbfactorial({n})', 'expected': w, 'actual': g(n)}
    cases.append(('dbfactorial', db))
    def cn():
        g = fn('utils', 'cmnorm')
        for n in range(0, 24):
            p = g(n)
            if tuple(p.keyfor) != ('sigma',): return {'input': f'cmnorm({n})', 'expected': "('sigma',)", 'actual': str(p.keyfor)}
            w = norm_mom(n, mp.mpf(0), to_mp(A['sigma']))
            r = diff(val(p, A), w, f'cmnorm({n})')
            if r: return r
    cases.append(('cmnorm', cn))
    return cases

# ------------------------------------------------------------------ C04
def _quad(n_rate, m, lo, hi):
    """int_lo^hi e^{n_rate s} s^m ds exactly (mp)"""
    n_rate = to_mp(n_rate); lo = to_mp(lo); hi = to_mp(hi)
    if n_rate == 0: return (hi ** (m + 1) - lo ** (m + 1)) / (m + 1)
    def G(s):
        tot = mp.mpf(0); c = 1 / n_rate; 
        for i in range(m + 1):
            tot += c * s ** (m - i); c *= -(m - i) / n_rate
        return mp.e ** (n_rate * s) * tot
    return G(hi) - G(lo)

def C04(tier):
    cases = []
    R = range(-4, 5) if tier == 'quick' else range(-8, 9)
    MM = range(0, 6) if tier == 'quick' else range(0, 10)
    def i1():
        g = fn('ito_mom', 'int_et')
        for n in R:
            for m in MM:
                r = diff(val(g(n, m), A), _quad(n * A['k'], m, 0, A['t']), f'ito_mom.int_et({n},{m})')
                if r: return r
        try: g(1, -1)
        except ValueError: pass
        else: return {'input': 'int_et(1,-1)', 'expected': 'ValueError', 'actual': 'accepted'}
    cases.append(('ito_mom.int_et', i1))
    def i2():
        g = fn('itos_mom', 'int_et')
        P = {k: to_mp(v) for k, v in A.items()}
        for n1 in R:
            for n2 in R:
                for m in range(0, 4 if tier == 'quick' else 7):
                    p = g(n1, n2, m)
                    tot = mp.mpf(0)
                    rate = n1 * P['k1'] + n2 * P['k2']
                    for (t0, e1, j), c in p.items():
                        t0s = [t0] if not isinstance(t0[0], tuple) else t0
                        v = to_mp(c) * mp.e ** ((e1[0] * P['k1'] + e1[1] * P['k2']) * P['t']) * P['t'] ** j
                        for a, b, q in t0s:
                            if q: v *= (a * P['k1'] + b * P['k2']) ** (-q)
                        tot += v
                    r = diff(tot, _quad(rate, m, 0, P['t']), f'itos_mom.int_et({n1},{n2},{m}) = {dict(p)}')
                    if r: return r
    cases.append(('itos_mom.int_et', i2))
    def i3():
        g = fn('ito_cond_mom', 'int_et_fZ')
        P = {k: to_mp(v) for k, v in A.items()}
        smax = to_mp(F(2, 7))
        for n in R:
            for m in MM:
                for N in range(0, 4):
                    p = g(n, m, N)
                    lo = smax if N else mp.mpf(0)
                    tot = mp.mpf(0)
                    for (a, b, c, d, e), v in p.items():
                        tot += to_mp(v) * mp.e ** (a * P['k'] * P['t']) * P['t'] ** b * P['k'] ** (-c) * mp.e ** (d * P['k'] * lo) * lo ** e
                    r = diff(tot, _quad(n * P['k'], m, lo, P['t']), f'int_et_fZ({n},{m},{N}) = {dict(p)}')
                    if r: return r
    cases.append(('ito_cond_mom.int_et_fZ', i3))
    def e1(seed):
        def f():
            g = fn('ito_mom', 'int_e_poly'); Poly = fn('poly', 'Poly')
            rng = random.Random(seed)
            P = {k: to_mp(v) for k, v in A.items()}
            kf = ['e^{k(n-1)h}', 'e^{k[t-(n-1)h]}', '[t-(n-1)h]', 'v_{n-1}', 'k^{-}', 'theta', 'sigma_v']
            d = {}
            for _ in range(rng.randint(1, 3)):
                d[(rng.randint(-2, 3), rng.randint(-3, 3), rng.randint(0, 3), rng.randint(0, 2), rng.randint(0, 3), rng.randint(0, 2), rng.randint(0, 2))] = F(rng.randint(1, 5), rng.randint(1, 3))
            p = Poly(d); p.set_keyfor(kf)
            m = rng.randint(-2, 3); tp = rng.randint(1, 4); c = F(rng.randint(-3, 3) or 1, 2)
            w = mp.mpf(0)
            fac = {1: mp.e ** (P['k'] * P['t0']) * P['v0'], 2: -mp.e ** (P['k'] * P['t0']) * P['theta'], 3: P['theta'], 4: P['sigma']}[tp]
            for k, v in d.items():
                w += to_mp(v) * mp.e ** ((k[0] + m) * P['k'] * P['t0']) * _quad((m + k[1]) * P['k'], k[2], 0, P['t']) * P['v0'] ** k[3] * P['k'] ** (-k[4]) * P['theta'] ** k[5] * P['sigma'] ** k[6]
            r = g(c, tp, m, p)
            if dict(p) != d: return {'input': f'int_e_poly({c},{tp},{m},{d})', 'expected': 'input unchanged', 'actual': str(dict(p))}
            return diff(val(r, A), to_mp(c) * fac * w, f'int_e_poly({c},{tp},{m},{d})')
        return f
    def e2(seed, iez):
        def f():
            g = fn('ito_cond_mom', 'int_e_IEZ_poly' if iez else 'int_e_poly'); Poly = fn('poly', 'Poly')
            rng = random.Random(seed)
            P = {k: to_mp(v) for k, v in A.items()}
            jumps = JA[rng.randint(1, 3)]
            s = [to_mp(x) for x in jumps[0]]; J = [to_mp(x) for x in jumps[1]]
            kf = ['e^{kt}', 't', 'k^{-}', 'v0-theta', 'theta', 'sigma', 'l_{1:n}', 'o_{1:n}', 'p_{2:n}', 'q_{2:n}']
            d = {}
            for _ in range(rng.randint(1, 2)):
                N = rng.randint(0, 2)
                d[(rng.randint(-2, 3), rng.randint(0, 2), rng.randint(0, 2), rng.randint(0, 2), rng.randint(0, 2), rng.randint(0, 2),
                   tuple(rng.randint(-1, 2) for _ in range(N)), tuple(rng.randint(0, 2) for _ in range(N)),
                   tuple(rng.randint(-1, 2) for _ in range(max(N - 1, 0))), tuple(rng.randint(0, 2) for _ in range(max(N - 1, 0))))] = F(rng.randint(1, 5), rng.randint(1, 3))
            p = Poly(d); p.set_keyfor(kf)
            m = rng.randint(-2, 3); c = F(rng.randint(-3, 3) or 1, 2); tp = rng.randint(1, 3)
            fac = mp.mpf(1) if iez else {1: P['v0'] - P['theta'], 2: P['theta'], 3: P['sigma']}[tp]
            w = mp.mpf(0)
            for k, v in d.items():
                base = to_mp(v) * P['k'] ** (-k[2]) * (P['v0'] - P['theta']) ** k[3] * P['theta'] ** k[4] * P['sigma'] ** k[5]
                l, o, pp, q = k[6:]
                l2, o2 = (l + (1,), o + (0,)) if iez else (l, o)
                if iez and len(l) >= 1: pp, q = pp + (0,), q + (0,)
                for idx in itertools.product(range(len(J)), repeat=len(l2)):
                    t = mp.mpf(1); mx = mp.mpf(0)
                    for i, j in enumerate(idx):
                        t *= mp.e ** (l2[i] * P['k'] * s[j]) * J[j] * s[j] ** o2[i]
                        mx = s[j] if i == 0 else max(mx, s[j])
                        if i: t *= mp.e ** (pp[i - 1] * P['k'] * mx) * mx ** q[i - 1]
                    w += base * t * _quad((m + k[0]) * P['k'], k[1], mx, P['h'])
            r = g(c, m, p) if iez else g(c, tp, m, p)
            lab = f'int_e_{"IEZ_" if iez else ""}poly({c},{"" if iez else tp},{m},{d}) jumps {jumps}'
            if dict(p) != d: return {'input': lab, 'expected': 'input unchanged', 'actual': str(dict(p))}
            return diff(val(r, A, jumps=jumps), to_mp(c) * fac * w, lab)
        return f
    N = 12 if tier == 'quick' else 150
    for s in range(N):
        cases.append((f'ito_mom.int_e_poly random {s}', e1(s)))
        cases.append((f'ito_cond_mom.int_e_poly random {s}', e2(s, False)))
        cases.append((f'ito_cond_mom.int_e_IEZ_poly random {s}', e2(s, True)))
    return cases

# ------------------------------------------------------------------ C05..C07
def pts(tier): return [('A', A)] if tier == 'quick' else [('A', A), ('B', B)]

def C05(tier):
    cases = []
    tot = 5 if tier == 'quick' else 7
    for nm, P in pts(tier):
        def mv(P=P):
            g = fn('ito_mom', 'moment_v')
            for n in range(0, 9):
                r = diff(val(g(n), P), gamma_mom(n, *(to_mp(P[x]) for x in ('theta', 'sigma', 'k'))), f'moment_v({n}) at {show(P)}')
                if r: return r
        cases.append((f'moment_v {nm}', mv))
        for o in orders(3, tot):
            def f(o=o, P=P):
                P2 = dict(P, t0=0)
                p = fn('ito_mom', 'moment_IEII')(*o)
                r = diff(val(p, P2), O.ito1(o, P), f'moment_IEII{o} at {show(P2)}')
                if r: return r
                # dependence on the left end point: e^{n3 k (n-1)h}
                return diff(val(p, P), O.ito1(o, P) * mp.e ** (o[0] * to_mp(P['k']) * to_mp(P['t0'])), f'moment_IEII{o} at {show(P)}')
            cases.append((f'moment_IEII{o} {nm}', f))
    return cases

def C06(tier):
    cases = []
    tot = 4 if tier == 'quick' else 5
    for nm, P in pts(tier):
        for o in orders(5, tot):
            def f(o=o, P=P):
                P2 = {k: to_mp(v) for k, v in P.items()}
                p = fn('itos_mom', 'moment_IEI_IEII')(*o)
                w = O.ito2(o, P) * mp.e ** ((o[0] * P2['k1'] + o[2] * P2['k2']) * P2['t0'])
                X = {'v_{1,n-1}': P2['v1'], 'v_{2,n-1}': P2['v2'], '[t-(n-1)h]': P2['t']}
                return diff(val(p, dict(P, _extra=X)), w, f'moment_IEI_IEII{o} at {show(P)}')
            cases.append((f'moment_IEI_IEII{o} {nm}', f))
    for n in (2, 3, 4):
        def f(n=n):
            g = fn('itos_mom', 'moment_IEI_IEII')
            T = g(n, 0, 0, 0, 0, True)
            top = g(0, n - 1, 0, 1, 0, True) if n > 1 else T
            for o in orders(5, n):
                src = T if o in T else None
                if src is None: 
                    if sum(o) < n: return {'input': f'moment_IEI_IEII({n},0,0,0,0,True)', 'expected': f'entry {o}', 'actual': 'absent'}
                    continue
                a, b = g(*o), src[o]
                X = {'v_{1,n-1}': to_mp(A['v1']), 'v_{2,n-1}': to_mp(A['v2']), '[t-(n-1)h]': to_mp(A['t'])}
                r = diff(val(b, dict(A, _extra=X)), val(a, dict(A, _extra=X)), f'return_all entry {o} of order {n}')
                if r: return r
        cases.append((f'return_all agrees with one-order, order {n}', f))
    return cases

def C07(tier):
    cases = []
    tot = 4 if tier == 'quick' else 5
    for nm, P in pts(tier):
        for ji, J in enumerate(JA):
            for o in orders(3, tot):
                if tier == 'quick' and sum(o) < 4 and ji == 3 and sum(o) != 3: continue
                def f(o=o, P=P, J=J):
                    p = fn('ito_cond_mom', 'moment_IEII')(*o)
                    return diff(val(p, P, jumps=J), O.ito_cond(o, P, *J), f'ito_cond_mom.moment_IEII{o} at {show(P)} jumps {J}')
                cases.append((f'ito_cond moment_IEII{o} {nm} path{ji}', f))
    for seed in range(15 if tier == 'quick' else 200):
        def f(seed=seed):
            rng = random.Random(seed)
            N = rng.randint(0, 3); nj = rng.randint(0, 4)
            ts = rng.sample([.1, .2, .35, .5, .7, .8], nj); J = [rng.choice([.2, .5, .9]) for _ in range(nj)]
            l = tuple(rng.randint(-2, 3) for _ in range(N)); o = tuple(rng.randint(0, 3) for _ in range(N))
            p = tuple(rng.randint(-2, 3) for _ in range(max(N - 1, 0))); q = tuple(rng.randint(0, 3) for _ in range(max(N - 1, 0)))
            w = O.fZ_true(l, o, p, q, F(13, 10), ts, J)
            g = fn('utils', 'fZ')(l, o, p, q, 1.3, tuple(ts), tuple(J))
            r = fdiff(g, w, w, f'fZ({l},{o},{p},{q},1.3,{ts},{J})')
            if r: return r
            if N and nj:
                tot = sum(fn('utils', 'fZ_each_index')(l, o, p, q, 1.3, tuple(ts), tuple(J), list(ix)) for ix in itertools.product(range(nj), repeat=N))
                r = fdiff(tot, w, w, f'sum of fZ_each_index({l},{o},{p},{q})')
                if r: return r
            if N:
                z = (0,) * (N - 1)
                g = fn('mdl_srjd.cond2_mom', 'fZ')(l, p, 1.3, tuple(ts), tuple(J))
                w = O.fZ_true(l, (0,) * N, p, z, F(13, 10), ts, J)
                return fdiff(g, w, w, f'mdl_srjd fZ({l},{p},1.3,{ts},{J})')
        cases.append((f'fZ random {seed}', f))
    return cases

# ------------------------------------------------------------------ C08
def C08(tier):
    cases = []
    top = 9 if tier == 'quick' else 12
    for nm, P in pts(tier):
        X = dict(mu=P['mu_j'], sigma=P['sigma_j'], h=P['h']); X['lambda'] = P['lambda']
        m, s, lh = to_mp(P['mu_j']), to_mp(P['sigma_j']), to_mp(P['lambda']) * to_mp(P['h'])
        for n in range(top):
            def f(n=n, X=X, m=m, s=s, lh=lh):
                for name, w in (('mcpp', O.cpp(n, lh, m, s)), ('mcpp_original', O.cpp(n, lh, m, s)), ('mnorm', norm_mom(n, m, s)),
                                ('cmcpp', O.central(lambda j: O.cpp(j, lh, m, s), n, lh * m))):
                    r = diff(val(fn('cpp_mom', name)(n), X), w, f'cpp_mom.{name}({n}) at {show(X)}')
                    if r: return r
            cases.append((f'cpp orders {n} {nm}', f))
    def neg():
        for name in ('mcpp', 'cmcpp', 'mnorm'):
            for n in (-1, -3):
                try: r = fn('cpp_mom', name)(n)
                except ValueError: continue
                return {'input': f'{name}({n})', 'expected': 'ValueError', 'actual': repr(r)}
    cases.append(('negative orders', neg))
    def mj(P=A):
        g = fn('mdl_svcj.ieziziz_mom', 'mnorm')
        for n in range(8):
            w = norm_mom(n, to_mp(P['mu_s']) + to_mp(P['rho_J']) * to_mp(P['J_i']), to_mp(P['sigma_s']))
            r = diff(val(fn('mdl_svcj.cond2_mom', 'mnorm_cond')(n), P), w, f'mnorm_cond({n})')
            if r: return r
    cases.append(('mnorm_cond', mj))
    return cases

# ------------------------------------------------------------------ C09
def C09(tier):
    cases = []
    top = 6 if tier == 'quick' else 7
    for nm, P in pts(tier):
        H = O.Heston(P)
        for n in range(0, top):
            def f(n=n, P=P, H=H):
                for mm, name, w in (('mom', 'moment_y', H.raw(n)), ('cmom', 'cmoment_y', H.cmom(n))):
                    r = diff(val(fn('mdl_1fsv.' + mm, name)(n), P), w, f'mdl_1fsv.{mm}.{name}({n}) at {show(P)}')
                    if r: return r
            cases.append((f'1fsv order {n} {nm}', f))
            def g(n=n, P=P, H=H):
                ps = fn('mdl_1fsv.cond_cmom', 'cmoments_y_to')(n)
                if len(ps) != n + 1: return {'input': f'cmoments_y_to({n})', 'expected': f'{n + 1} entries', 'actual': len(ps)}
                v0 = to_mp(P['v0'])
                w = H.cond_cmom(n, v0)
                # natural keyfor uses 'v_0-theta' and e^{kt}
                r = diff(val(ps[-1], P), w, f'cond_cmom.cmoments_y_to({n})[-1] at {show(P)}')
                if r: return r
                for tp in (1, 2, 3):
                    q = fn('mdl_1fsv.cond_cmom', 'simplify')(ps[-1], tp)
                    r = diff(val(q, P), w, f'cond_cmom.simplify(cmoments_y_to({n})[-1], {tp})')
                    if r: return r
                par = par1(P)
                return fdiff(fn('mdl_1fsv.cond_cmom', 'cond_cm')(n, par), w, abs(w), f'cond_cm({n}, {par})', 1e-8)
            cases.append((f'1fsv conditional central order {n} {nm}', g))
    return cases

# ------------------------------------------------------------------ C10
def C10(tier):
    cases = []
    top1 = [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1)] + ([(3, 2), (2, 3), (3, 3)] if tier != 'quick' else [])
    top2 = [(1, 1), (1, 2), (2, 1), (2, 2)] + ([(1, 3), (3, 1)] if tier != 'quick' else [])
    for nm, P in pts(tier):
        for model, cls, jmp, tops in (('mdl_1fsv', O.Heston, False, top1), ('mdl_1fsvj', O.Heston, True, top1), ('mdl_2fsv', O.TwoFactor, False, top2), ('mdl_2fsvj', O.TwoFactor, True, top2)):
            for l in tops:
                def f(model=model, cls=cls, jmp=jmp, l=l, P=P):
                    M = cls(P, jmp)
                    r = diff(val(fn(model + '.cov', 'moment_yy')(*l), P), M.yy(*l), f'{model}.cov.moment_yy{l} at {show(P)}')
                    if r: return r
                    return diff(val(fn(model + '.cov', 'cov_yy')(*l), P), M.cov(*l), f'{model}.cov.cov_yy{l} at {show(P)}')
                cases.append((f'{model} cov{l} {nm}', f))
    return cases

def C11(tier):
    cases = []
    for nm, P in pts(tier):
        for model, cls, top in (('1fsv', O.Heston, 6 if tier == 'quick' else 7), ('2fsv', O.TwoFactor, 5)):
            for n in range(0, top):
                def f(model=model, cls=cls, n=n, P=P):
                    M = cls(P, True)
                    for mm, name, w in (('mom', 'moment_y', M.raw(n)), ('cmom', 'cmoment_y', M.cmom(n))):
                        p = fn(f'mdl_{model}j.{mm}', name)(n)
                        r = diff(val(p, P), w, f'mdl_{model}j.{mm}.{name}({n}) at {show(P)}')
                        if r: return r
                        Z = dict(P); Z['lambda'] = F(0)
                        q = fn(f'mdl_{model}.{mm}', name)(n)
                        r = diff(val(p, Z), val(q, Z), f'mdl_{model}j.{mm}.{name}({n}) at zero intensity')
                        if r: return r
                cases.append((f'{model}j order {n} {nm}', f))
    return cases

def C12(tier):
    cases = []
    for nm, P in pts(tier):
        for n in range(0, 5):
            def f(n=n, P=P):
                M = O.TwoFactor(P)
                S = dict(P); S.update(k1=P['k2'], k2=P['k1'], theta1=P['theta2'], theta2=P['theta1'], sigma1=P['sigma2'], sigma2=P['sigma1'])
                for mm, name, w in (('mom', 'moment_y', M.raw(n)), ('cmom', 'cmoment_y', M.cmom(n))):
                    p = fn('mdl_2fsv.' + mm, name)(n)
                    r = diff(val(p, P), w, f'mdl_2fsv.{mm}.{name}({n}) at {show(P)}')
                    if r: return r
                    r = diff(val(p, S), w, f'mdl_2fsv.{mm}.{name}({n}) with factors exchanged at {show(P)}')
                    if r: return r
            cases.append((f'2fsv order {n} {nm}', f))
    return cases

# ------------------------------------------------------------------ C13
def srjd_P(P): return dict(P)

def C13(tier):
    cases = []
    top = 6 if tier == 'quick' else 8
    for nm, P in pts(tier):
        M = O.SRJD(P)
        mp_ = {k: to_mp(v) for k, v in P.items()}
        ek = mp.e ** (mp_['k'] * mp_['h'])
        Ev = mp_['theta'] + mp_['lmbd'] * mp_['mu_v'] / mp_['k']
        def xm(n):  # x = e^{kt}(v_t - theta) for moment_x: see cond_mom
            return O.central(lambda j: M.cond(j), n, mp_['theta']) * ek ** n
        for n in range(0, top):
            def f(n=n, P=P, M=M):
                T = [('cond_mom', 'moment_v', M.cond(n)), ('cond_cmom', 'cmoment_v', M.cond_c(n)), ('cmom', 'cmoment_v', M.stat_c(n)),
                     ('mom', 'moment_v', M.stat(n)), ('cond_cmom', 'cmoment_x', None), ('cond_mom', 'moment_x', None)]
                for mm, name, w in T:
                    if w is None: continue
                    r = diff(val(fn('mdl_srjd.' + mm, name)(n), P), w, f'mdl_srjd.{mm}.{name}({n}) at {show(P)}')
                    if r: return r
                r = diff(val(fn('mdl_srjd.mom', 'moment_v')(n, False), P), M.stat(n), f'mdl_srjd.mom.moment_v({n}, False)')
                if r: return r
            cases.append((f'srjd order {n} {nm}', f))
            for ji, J in enumerate(JA):
                def g(n=n, P=P, M=M, J=J):
                    r = diff(val(fn('mdl_srjd.cond2_mom', 'moment_v')(n), P, jumps=J), M.cond2(n, *J), f'mdl_srjd.cond2_mom.moment_v({n}) at {show(P)} jumps {J}')
                    if r: return r
                    return diff(val(fn('mdl_srjd.cond2_cmom', 'cmoment_v')(n), P, jumps=J), M.cond2_c(n, *J), f'mdl_srjd.cond2_cmom.cmoment_v({n}) jumps {J}')
                if n <= 4 or ji <= 2: cases.append((f'srjd given jumps order {n} path{ji} {nm}', g))
        for n in range(0, 6):
            def h(n=n, P=P):
                X = dict(P)   # IEZ over (s,t]
                w = O.ieziziz((n, 0, 0), P, P['s'], P['h'])
                r = diff(val(fn('mdl_srjd.iez_mom', 'moment_IEZ')(n), X), w, f'iez_mom.moment_IEZ({n}) at {show(X)}')
                if r: return r
                wc = O.central(lambda j: O.ieziziz((j, 0, 0), P, P['s'], P['h']), n, O.ieziziz((1, 0, 0), P, P['s'], P['h']))
                return diff(val(fn('mdl_srjd.iez_cmom', 'cmoment_IEZ')(n), X), wc, f'iez_cmom.cmoment_IEZ({n}) at {show(X)}')
            cases.append((f'srjd IEZ order {n} {nm}', h))
        for o in orders(2, 5 if tier == 'quick' else 6):
            def q(o=o, P=P):
                w = O.srjd_ie_iez(o, P)
                r = diff(val(fn('mdl_srjd.cond_ie_iez_mom', 'moment_ie_iez')(*o), P), w, f'moment_ie_iez{o} at {show(P)}')
                if r: return r
                m1 = O.srjd_ie_iez((0, 1), P)
                wc = sum(math.comb(o[1], j) * (-m1) ** j * O.srjd_ie_iez((o[0], o[1] - j), P) for j in range(o[1] + 1))
                r = diff(val(fn('mdl_srjd.cond_ie_iez_cmom', 'cmoment_ie_iez')(*o), P), wc, f'cmoment_ie_iez{o} at {show(P)}')
                if r: return r
                if o[1] == 0:
                    for mm in ('cond_ie_iez_mom', 'cond_ie_iez_cmom'):
                        r = diff(val(fn('mdl_srjd.' + mm, 'moment_ie')(o[0]), P), w, f'{mm}.moment_ie({o[0]}) at {show(P)}')
                        if r: return r
            cases.append((f'srjd joint {o} {nm}', q))
        for n in range(1, 5):
            def z(n=n, P=P):
                w = O.ito_cond((n, 0, 0), dict(P, t=P['h']), *JA[2])
                r = diff(val(fn('mdl_srjd.cond2_mom', 'moment_IE')(n), P, jumps=JA[2]), w, f'cond2_mom.moment_IE({n}) jumps {JA[2]}')
                return r
            cases.append((f'srjd cond2 moment_IE({n}) {nm}', z))
    return cases

def C14(tier):
    cases = []
    top = 4 if tier == 'quick' else 5
    for nm, P in pts(tier):
        for ji, J in enumerate(JA):
            for n in range(1, top + 1):
                if tier == 'quick' and ji == 3 and n > 3: continue
                for kind, model in (('vv', 'mdl_svvj'), ('ij', 'mdl_svij'), ('cj', 'mdl_svcj')):
                    def f(n=n, P=P, J=J, kind=kind, model=model):
                        M = O.VJ(P, J[0], J[1], kind)
                        a = (n, tuple(float(x) for x in J[1])) if kind == 'cj' else (n,)
                        p = fn(model + '.cond2_mom', 'moment_y')(*a)
                        r = diff(val(p, P, jumps=J), M.raw(n), f'{model}.cond2_mom.moment_y({n}) at {show(P)} jumps {J}')
                        if r: return r
                        p = fn(model + '.cond2_cmom', 'cmoment_y')(*a)
                        r = diff(val(p, P, jumps=J), M.cmom(n), f'{model}.cond2_cmom.cmoment_y({n}) at {show(P)} jumps {J}')
                        if r: return r
                        for p, w, nm2 in ((fn(model + '.cond2_mom', 'moments_y_to')(*a), M.raw, 'moments_y_to'), (fn(model + '.cond2_cmom', 'cmoments_y_to')(*a), M.cmom, 'cmoments_y_to')):
                            for i in range(n + 1):
                                r = diff(val(p[i], P, jumps=J), w(i), f'{model} {nm2}({n})[{i}] at {show(P)} jumps {J}')
                                if r: return r
                        if not J[0] and kind == 'vv' and n:
                            H = O.Heston(P)
                            r = diff(M.raw(n), H.cond_raw(n, to_mp(P['v0'])), 'oracle self-check')
                            if r: return r
                    cases.append((f'{model} order {n} path{ji} {nm}', f))
    return cases

def C15(tier):
    cases = []
    top = 3 if tier == 'quick' else 4
    for nm, P in pts(tier):
        M = O.SVCJ(P)
        for n in range(0, top + 1):
            for mm, name, get in (('cond_mom', 'moment_y', M.cond_raw), ('cond_cmom', 'cmoment_y', M.cond_cmom), ('mom', 'moment_y', M.raw), ('cmom', 'cmoment_y', M.cmom)):
                def f(n=n, mm=mm, name=name, get=get, P=P):
                    return diff(val(fn('mdl_svcj.' + mm, name)(n), P), get(n), f'mdl_svcj.{mm}.{name}({n}) at {show(P)}')
                cases.append((f'svcj {mm}({n}) {nm}', f))
        for o in orders(3, 4 if tier == 'quick' else 6):
            def g(o=o, P=P):
                return diff(val(fn('mdl_svcj.ieziziz_mom', 'moment_ieziziz')(*o), P), O.ieziziz(o, P, P['s'], P['h']), f'moment_ieziziz{o} at {show(P)}')
            cases.append((f'ieziziz{o} {nm}', g))
        tot = 3 if tier == 'quick' else 4
        for o in orders(6, tot):
            if tier == 'quick' and sum(o) == 3 and o[5] > 1: continue
            def h(o=o, P=P):
                return diff(val(fn('mdl_svcj.cond_ieii_ieziziz_mom', 'moment_ieii_ieziziz')(*o), P), O.svcj_joint(o, P), f'moment_ieii_ieziziz{o} at {show(P)}')
            cases.append((f'ieii_ieziziz{o} {nm}', h))
        for o in [(2, 1, 0, 1, 0, 0), (1, 1, 0, 1, 1, 0), (0, 2, 0, 0, 1, 1), (2, 0, 0, 2, 0, 0), (0, 0, 2, 1, 1, 0)]:
            cases.append((f'ieii_ieziziz{o} {nm}', lambda o=o, P=P: diff(val(fn('mdl_svcj.cond_ieii_ieziziz_mom', 'moment_ieii_ieziziz')(*o), P), O.svcj_joint(o, P), f'moment_ieii_ieziziz{o} at {show(P)}')))
    return cases

# ------------------------------------------------------------------ C16
NAME2P = {'sigma_v': 'sigma', 'sigma_v1': 'sigma1', 'sigma_v2': 'sigma2'}
W1 = ['k', 'mu', 'theta', 'sigma_v', 'rho']; W2 = ['k1', 'k2', 'mu', 'theta1', 'sigma_v1', 'theta2', 'sigma_v2']; WJ = ['lambda', 'mu_j', 'sigma_j']

def numdiff(p, P, wrt):
    nm = NAME2P.get(wrt, wrt)
    h = mp.mpf(10) ** -18
    a = dict(P); a[nm] = to_mp(P[nm]) + h
    b = dict(P); b[nm] = to_mp(P[nm]) - h
    return (val(p, a) - val(p, b)) / (2 * h)

def synth(rng, kf, Poly, n=6):
    """a formula over the same variables, not necessarily a moment; even powers of sqrt(1-rho^2)"""
    d = {}
    for _ in range(n):
        key = []
        for nm in kf:
            if nm.startswith('(n_1m'):
                t = tuple((a, b, rng.randint(1, 3)) for a, b in rng.sample([(1, 0), (0, 1), (1, 1), (2, -1), (2, 1), (-1, 3)], rng.randint(1, 3)))
                key.append(t if rng.random() < .8 else ((0, 0, 0),))
            elif nm.startswith('e^{-(n1'): key.append((rng.randint(-2, 3), rng.randint(-2, 3)))
            elif nm.startswith('sqrt'): key.append(2 * rng.randint(0, 3))
            else: key.append(rng.randint(0, 4) if rng.random() < .8 else rng.randint(-2, 0))
        d[tuple(key)] = F(rng.randint(-5, 5) or 1, rng.randint(1, 4))
    p = Poly(d); p.set_keyfor(kf)
    return p

def C16(tier):
    cases = []
    Poly = fn('poly', 'Poly')
    for model, W, top in (('mdl_1fsv', W1, 4), ('mdl_1fsvj', W1 + WJ, 4), ('mdl_2fsv', W2, 3), ('mdl_2fsvj', W2 + WJ, 3)):
        for mm, name in (('mom', 'moment_y'), ('cmom', 'cmoment_y'), ('cov', 'cov_yy')):
            dmod = mm if mm != 'cov' else 'mom'
            for arg in ([(n,) for n in range(1, top + 1)] if mm != 'cov' else [(1, 1), (2, 1), (1, 2)]):
                def f(model=model, W=W, mm=mm, name=name, dmod=dmod, arg=arg):
                    p = fn(f'{model}.{mm}', name)(*arg)
                    dp = fn(f'{model}.{dmod}', 'dpoly')
                    par = par1(A) if '1f' in model else par2(A)
                    for w in W:
                        before = dict(p)
                        q = dp(p, w)
                        if dict(p) != before: return {'input': f'{model} dpoly', 'expected': 'formula unchanged', 'actual': 'changed'}
                        if mm == 'cmom' and w == 'mu': want = mp.mpf(0)
                        else: want = numdiff(p, A, w)
                        r = diff(val(q, A), want, f'{model}.{dmod}.dpoly({name}{arg}, {w!r}) at {show(A)}', rel=mp.mpf(10) ** -14, abs_=mp.mpf(10) ** -20)
                        if r: return r
                        dn = {'mom': 'dm', 'cmom': 'dcm', 'cov': 'dcov'}[mm]
                        sc = sum(abs(val({k: c}, A, names=q.keyfor)) for k, c in q.items()) if len(q) else 0
                        r = fdiff(fn(f'{model}.{mm}', dn)(*arg, par, w), want, sc, f'{model}.{mm}.{dn}({arg},{par},{w!r})')
                        if r: return r
                    for bad in ('nope', '', 'H', 'Theta', 'v0'):
                        try: r = dp(p, bad)
                        except ValueError: continue
                        return {'input': f'{model}.{dmod}.dpoly(.., {bad!r})', 'expected': 'ValueError', 'actual': repr(r)[:200]}
                cases.append((f'{model} {mm} derivative {arg}', f))
    for model, W in (('mdl_1fsv', W1), ('mdl_1fsvj', W1 + WJ), ('mdl_2fsv', W2), ('mdl_2fsvj', W2 + WJ)):
        for mm, name in (('mom', 'moment_y'), ('cmom', 'cmoment_y')):
            for seed in range(4 if tier == 'quick' else 40):
                def f(model=model, mm=mm, name=name, seed=seed, W=W):
                    rng = random.Random(seed)
                    kf = fn(f'{model}.{mm}', name)(1 if mm == 'mom' else 2).keyfor
                    p = synth(rng, kf, Poly); s = dict(p)
                    for w in W:
                        if mm == 'cmom' and w == 'mu': continue
                        q = fn(f'{model}.{mm}', 'dpoly')(p, w)
                        if dict(p) != s: return {'input': 'dpoly', 'expected': 'formula unchanged', 'actual': 'changed'}
                        r = diff(val(q, A), numdiff(p, A, w), f'{model}.{mm}.dpoly({s}, {w!r}) at {show(A)}', rel=mp.mpf(10) ** -14, abs_=mp.mpf(10) ** -20)
                        if r: return r
                cases.append((f'{model} {mm} derivative of synthetic formula {seed}', f))
    return cases

# ------------------------------------------------------------------ C17
def scale(p, P, jumps=None):
    return sum((abs(val({k: c}, P, names=p.keyfor, jumps=jumps)) for k, c in p.items()), mp.mpf(0))

def C17(tier):
    cases = []
    Poly = fn('poly', 'Poly')
    J = JA[2]
    Js = tuple(float(x) for x in J[1])
    p3 = lambda: par3(A, J)
    specs = []   # module with poly2num, keyfor getter, params, jumps, scalar wrappers [(name,args,formula getter)]
    for model, W in (('mdl_1fsv', par1), ('mdl_1fsvj', par1), ('mdl_2fsv', par2), ('mdl_2fsvj', par2)):
        for mm, name, sc in (('mom', 'moment_y', 'm'), ('cmom', 'cmoment_y', 'cm')):
            specs.append((f'{model}.{mm}', 'poly2num', name, lambda W=W: W(A), None, [(sc, (n,), (f'{model}.{mm}', name, (n,))) for n in (0, 1, 2, 3)]))
        specs.append((f'{model}.mom', 'poly2num', 'moment_y', lambda W=W: W(A), None, []))
        specs.append((f'{model}.cov', None, 'cov_yy', lambda W=W: W(A), None, [('cov', l, (f'{model}.cov', 'cov_yy', l)) for l in ((1, 1), (2, 1))]))
    for mm, name, wr in (('cond_mom', 'moment_v', [('m', 'moment_v'), ('m_x', 'moment_x')]), ('cond_cmom', 'cmoment_v', [('cm', 'cmoment_v'), ('cm_x', 'cmoment_x')]),
                         ('iez_mom', 'moment_IEZ', [('m', 'moment_IEZ')]), ('iez_cmom', 'cmoment_IEZ', [('cm', 'cmoment_IEZ')]),
                         ('cond_ie_iez_mom', 'moment_ie', [('m_ie', 'moment_ie')]), ('cond_ie_iez_cmom', 'moment_ie', [('m_ie', 'moment_ie')])):
        specs.append((f'mdl_srjd.{mm}', 'poly2num', name, p3, None, [(s, (n,), (f'mdl_srjd.{mm}', g, (n,))) for s, g in wr for n in (1, 2, 3)]))
    specs.append(('mdl_srjd.cond_ie_iez_mom', None, 'moment_ie', p3, None, [('m_ie_iez', (2, 1), ('mdl_srjd.cond_ie_iez_mom', 'moment_ie_iez', (2, 1)))]))
    specs.append(('mdl_srjd.cond_ie_iez_cmom', None, 'moment_ie', p3, None, [('cm_ie_iez', (2, 1), ('mdl_srjd.cond_ie_iez_cmom', 'cmoment_ie_iez', (2, 1)))]))
    specs.append(('mdl_srjd.cond2_mom', 'poly2num', 'moment_v', p3, J, [('m', (n,), ('mdl_srjd.cond2_mom', 'moment_v', (n,))) for n in (1, 2, 3)]))
    specs.append(('mdl_srjd.cond2_cmom', 'poly2num', 'cmoment_v', p3, J, [('cm', (n,), ('mdl_srjd.cond2_cmom', 'cmoment_v', (n,))) for n in (1, 2, 3)]))
    for model in ('mdl_svvj', 'mdl_svij', 'mdl_svcj'):
        ex = (Js,) if model == 'mdl_svcj' else ()
        specs.append((f'{model}.cond2_mom', 'poly2num', 'moment_y', p3, J, [('m', (n,), (f'{model}.cond2_mom', 'moment_y', (n,) + ex)) for n in (1, 2, 3)]))
        specs.append((f'{model}.cond2_cmom', 'poly2num', 'cmoment_y', p3, J, [('cm', (n,), (f'{model}.cond2_cmom', 'cmoment_y', (n,) + ex)) for n in (1, 2, 3)]))
    for mm, name, sc in (('cond_mom', 'moment_y', 'm_y'), ('cond_cmom', 'cmoment_y', 'cm_y'), ('mom', 'moment_y', 'unm_y'), ('cmom', 'cmoment_y', 'cm_y')):
        specs.append((f'mdl_svcj.{mm}', 'poly2num', name, p3, None, [(sc, (n,), (f'mdl_svcj.{mm}', name, (n,))) for n in (1, 2, 3)]))
    specs.append(('mdl_svcj.ieziziz_mom', 'poly2num', 'moment_ieziziz', p3, None, [('m_ieziziz', ((1, 1, 1),), ('mdl_svcj.ieziziz_mom', 'moment_ieziziz', (1, 1, 1)))]))
    specs.append(('mdl_svcj.cond_ieii_ieziziz_mom', 'poly2num', 'moment_ieii_ieziziz', p3, None, [('m_ieii_ieziziz', ((1, 1, 0, 1, 0, 0),), ('mdl_svcj.cond_ieii_ieziziz_mom', 'moment_ieii_ieziziz', (1, 1, 0, 1, 0, 0)))]))
    specs.append(('mdl_1fsv.cond_cmom', 'poly2num', None, lambda: par1(A), None, []))
    KF = {'mdl_1fsv.cond_cmom': ('e^{-kt}', 't', 'k^{-}', 'v_0-theta', 'theta', 'sigma', 'rho')}
    SAMPLE = {'moment_ieziziz': (1, 1, 1), 'moment_ieii_ieziziz': (1, 1, 0, 0, 0, 0)}
    A0 = dict(A, s=F(0))   # the scalar version of the interval moments takes the interval (0, h)
    for modname, p2n, form, par, jumps, wrappers in specs:
        PT = A0 if modname == 'mdl_svcj.ieziziz_mom' else A
        if p2n:
            for seed in range(3 if tier == 'quick' else 30):
                def f(PT=PT, modname=modname, form=form, par=par, jumps=jumps, seed=seed):
                    rng = random.Random(seed)
                    kf = KF.get(modname)
                    if kf is None:
                        a = SAMPLE.get(form, (2,))
                        if 'svcj.cond2' in modname: a = a + (Js,)
                        kf = fn(modname, form)(*a).keyfor
                    d = {}
                    for _ in range(rng.randint(0, 5)):
                        N = rng.randint(0, 2)
                        key = []
                        for nm in kf:
                            if nm in ('l_{1:n}', 'o_{1:n}'): key.append(tuple(rng.randint(0, 2) for _ in range(N)))
                            elif nm in ('p_{2:n}', 'q_{2:n}', 'o_{2:n}'): key.append(tuple(rng.randint(0, 2) for _ in range(max(N - 1, 0))))
                            elif nm == 'J_{1:n}': key.append(tuple(rng.randint(0, 3) for _ in range(len(Js))))
                            elif nm.startswith('(n_1m'): key.append(tuple((a, b, rng.randint(1, 2)) for a, b in rng.sample([(1, 0), (0, 1), (2, 1), (3, -1)], rng.randint(1, 3))))
                            elif nm.startswith('e^{-(n1'): key.append((rng.randint(-2, 2), rng.randint(-2, 2)))
                            elif nm.startswith('sqrt'): key.append(rng.randint(0, 4))
                            else: key.append(rng.randint(-2, 3))
                        d[tuple(key)] = F(rng.randint(-5, 5) or 1, rng.randint(1, 4))
                    p = Poly(d); p.set_keyfor(kf)
                    pr = par(); pr0 = copy.deepcopy(pr)
                    got = fn(modname, 'poly2num')(p, pr)
                    if pr != pr0: return {'input': f'{modname}.poly2num', 'expected': 'parameters unchanged', 'actual': str(pr)}
                    if dict(p) != d or tuple(p.keyfor) != tuple(kf): return {'input': f'{modname}.poly2num', 'expected': 'formula unchanged', 'actual': str(dict(p))}
                    return fdiff(got, val(p, PT, jumps=jumps), scale(p, PT, jumps), f'{modname}.poly2num({d}) at {pr0}')
                cases.append((f'{modname}.poly2num synthetic {seed}', f))
        for sc, args, (gm, gn, ga) in wrappers:
            def g(PT=PT, modname=modname, sc=sc, args=args, gm=gm, gn=gn, ga=ga, par=par, jumps=jumps):
                p = fn(gm, gn)(*ga)
                pr = par(); pr0 = copy.deepcopy(pr)
                got = fn(modname, sc)(*args, pr)
                if pr != pr0: return {'input': f'{modname}.{sc}', 'expected': 'parameters unchanged', 'actual': str(pr)}
                return fdiff(got, val(p, PT, jumps=jumps), scale(p, PT, jumps), f'{modname}.{sc}({args}) at {pr0}')
            cases.append((f'{modname}.{sc}{args}', g))
    return cases

# ------------------------------------------------------------------ C18
def C18(tier):
    cases = []
    Poly = fn('poly', 'Poly')
    N = 10 if tier == 'quick' else 150
    def rp(rng, kf, spec):
        d = {}
        for _ in range(rng.randint(1, 6)):
            d[tuple(spec(rng, nm) for nm in kf)] = F(rng.randint(-5, 5) or 1, rng.randint(1, 4))
        p = Poly(d); p.set_keyfor(kf)
        return p
    def sp(rng, nm):
        if nm.startswith('sqrt'): return 2 * rng.randint(0, 3)
        return rng.randint(0, 3)
    def conv(modname, name, kf, call, seed, jumps=None, spec=sp, Pv=A, raises=None):
        def f():
            rng = random.Random(seed)
            p = rp(rng, kf, spec) if not callable(kf) else kf(rng)
            d0 = dict(p)
            q = call(fn(modname, name), p, rng)
            if dict(p) != d0: return {'input': f'{modname}.{name}({d0})', 'expected': 'formula unchanged', 'actual': str(dict(p))}
            return diff(val(q, Pv, jumps=jumps), val(p, Pv, jumps=jumps), f'{modname}.{name}({d0}) over {p.keyfor}')
        return f
    for s in range(N):
        kf = ('h', 'theta', 'rho', 'sqrt(1-rho^2)', 'sigma')
        cases.append((f'simplify_rho {s}', conv('utils', 'simplify_rho', kf, lambda g, p, r: g(p, 3), s)))
        kf = ('theta', 'rho', 'sqrt(1-rho^2)')
        cases.append((f'simplify_rho last {s}', conv('utils', 'simplify_rho', kf, lambda g, p, r: g(p, 2), s)))
        kf = ('e^{kt}', 't', 'k^{-}', 'v_0-theta', 'theta', 'sigma', 'sigma/2k', 'rho-sigma/2k', 'sqrt(1-rho^2)')
        for tp in (1, 2, 3): cases.append((f'1fsv simplify tp={tp} {s}', conv('mdl_1fsv.cond_cmom', 'simplify', kf, lambda g, p, r, tp=tp: g(p, tp), s)))
        def kfv(rng):
            base = ('e^{kt}', 't', 'k^{-}', 'v0-theta', 'theta', 'sigma', 'l_{1:n}', 'o_{1:n}', 'p_{2:n}', 'q_{2:n}', 'sigma/2k', 'rho-sigma/2k', 'sqrt(1-rho^2)')
            d = {}
            for _ in range(rng.randint(1, 6)):
                n = rng.randint(0, 2)
                key = []
                for nm in base:
                    if nm in ('l_{1:n}', 'o_{1:n}'): key.append(tuple(rng.randint(0, 2) for _ in range(n)))
                    elif nm in ('p_{2:n}', 'q_{2:n}'): key.append(tuple(rng.randint(0, 2) for _ in range(max(n - 1, 0))))
                    else: key.append(sp(rng, nm))
                d[tuple(key)] = F(rng.randint(-5, 5) or 1, rng.randint(1, 4))
            p = Poly(d); p.set_keyfor(base)
            return p
        for tp in (0, 1): cases.append((f'svvj simplify tp={tp} {s}', conv('mdl_svvj.cond2_cmom', 'simplify', kfv, lambda g, p, r, tp=tp: g(p, tp), s, jumps=JA[2])))
        def cl(s=s, kfv=kfv):
            p = kfv(random.Random(s)); d0 = dict(p)
            qs = fn('mdl_svvj.cond2_cmom', 'classify')(p)
            if dict(p) != d0: return {'input': 'classify', 'expected': 'formula unchanged', 'actual': ''}
            n = sum(len(q) for q in qs)
            if n != len(d0): return {'input': f'classify({d0})', 'expected': f'{len(d0)} terms', 'actual': f'{n} terms'}
            for q in qs:
                if 'l_{1:n}' in q.keyfor and len({len(k[6]) for k in q}) > 1: return {'input': f'classify({d0})', 'expected': 'one level per part', 'actual': str(dict(q))}
            return diff(sum(val(q, A, jumps=JA[2]) for q in qs), val(p, A, jumps=JA[2]), f'classify({d0})')
        cases.append((f'svvj classify {s}', cl))
        kf = ('e^{kt}', 't', 'k^{-}', 'mu', 'v0-theta', 'theta', 'sigma', 'rho', 'sqrt(1-rho^2)', 'lmbd', 'mu_v', 'rhoJ', 'mu_s', 'sigma_s')
        cases.append((f'svcj expand_sqrt {s}', conv('mdl_svcj.cond_mom', 'expand_sqrt', kf, lambda g, p, r: g(p), s)))
        kf = ('k^{-}', 'E[v]', 'sigma', 'lmbd', 'mu_v')
        cases.append((f'srjd expand {s}', conv('mdl_srjd.mom', 'expand', kf, lambda g, p, r: g(p), s)))
        def spz(rng, nm): return 0 if nm == 'mu' else sp(rng, nm)
        def en(s=s):
            rng = random.Random(s)
            kf = ('a', 'b', 'c')[:rng.randint(1, 3)]
            p = rp(rng, kf, lambda r, n: r.randint(-2, 3)); d0 = dict(p)
            new = list(kf) + ['x', 'y']; rng.shuffle(new)
            q = fn('mdl_svcj.cond_mom', 'enlarge')(p, new)
            X = dict(a=mp.mpf(2), b=mp.mpf(3) / 7, c=mp.mpf(5) / 3, x=mp.mpf(11), y=mp.mpf(13))
            if dict(p) != d0 or tuple(q.keyfor) != tuple(new): return {'input': f'enlarge({d0},{new})', 'expected': 'formula unchanged, new names', 'actual': f'{dict(p)} {q.keyfor}'}
            return diff(val(q, {'_extra': X}), val(p, {'_extra': X}), f'enlarge({d0} over {kf}, {new})')
        cases.append((f'svcj enlarge {s}', en))
        def ez(s=s):
            rng = random.Random(s)
            kf = ('e^{kt}', 'e^{ks}', 't-s', 'k^{-}', 'lmbd', 'mu_v', 'mu_s', 'sigma_s')
            p = rp(rng, kf, lambda r, n: r.randint(0, 3)); d0 = dict(p)
            q = fn('mdl_svcj.cond_ieii_ieziziz_mom', 'expand_ieziziz')(p)
            if dict(p) != d0: return {'input': 'expand_ieziziz', 'expected': 'unchanged', 'actual': ''}
            return diff(val(q, A), val(p, A), f'expand_ieziziz({d0})')
        cases.append((f'svcj expand_ieziziz {s}', ez))
    def rm():
        for n in (2, 3):
            M = O.SVCJ(A)
            p = fn('mdl_svcj.cmom', 'cmoment_y')(n)
            q = fn('mdl_svcj.cmom', 'remove_mu_column')(p) if 'mu' in p.keyfor else p
            r = diff(val(q, A), val(p, dict(A, mu=F(0)) if 'mu' in p.keyfor else A), f'remove_mu_column(cmoment_y({n}))')
            if r: return r
    cases.append(('svcj remove_mu_column', rm))
    def odd():
        p = Poly({(1, 1): F(1)}); p.set_keyfor(('rho', 'sqrt(1-rho^2)'))
        try: q = fn('utils', 'simplify_rho')(p, 1)
        except Exception: return None
        return {'input': 'simplify_rho of an odd power', 'expected': 'an error (no polynomial form exists)', 'actual': str(dict(q))}
    cases.append(('simplify_rho odd power', odd))
    from . import files
    return cases + files.cases(['classify'], tier)

# ------------------------------------------------------------------ C19
def read_txt(path):
    L = open(path, encoding='utf-8').read().splitlines()
    head, rest = L[0].rsplit(': value(in fraction)', 1)
    kf = ast.literal_eval(head)
    out = []
    for ln in L[1:]:
        if not ln.strip(): continue
        k, v = ln.rsplit(': ', 1)
        n, d = ast.literal_eval(v)
        out.append((ast.literal_eval(k), F(n, d)))
    return tuple(kf), out

def read_csv(path):
    R = list(csv.reader(open(path, encoding='utf-8', newline='')))
    head = R[0]
    out = []
    for r in R[1:]:
        if len(r) != len(head): raise AssertionError(f'row {r} does not match header {head}')
        out.append((tuple(ast.literal_eval(x) for x in r[:-2]), F(int(r[-2]), int(r[-1]))))
    assert head[-2:] == ['num', 'den']
    return head[:-2], out

def C19(tier):
    cases = []
    Poly = fn('poly', 'Poly')
    def mk(rng, kind, N, n):
        if kind == 'plain': kf = ('e^{-kh}', 'h', 'k^{-}', 'theta')
        elif kind == '2f': kf = ('(n_1m*k1+n_2m*k2)^{-i_m},...,(n_11*k1+n_21*k2)^{-i_1}', 'e^{-(n1*k1+n2*k2)h}', 'h', 'mu')
        elif kind == 'srjd': kf = ('v_0', 'k^{-}', 'e^{kt}', 'l_{1:n}', 'o_{2:n}')
        elif kind == 'svvj': kf = ('e^{kt}', 't', 'l_{1:n}', 'o_{1:n}', 'p_{2:n}', 'q_{2:n}', 'sigma/2k')
        else: kf = ('e^{kt}', 'l_{1:n}', 'o_{1:n}', 'p_{2:n}', 'q_{2:n}', 'mu_s', 'J_{1:n}')
        d = {}
        for _ in range(n):
            key = []
            for nm in kf:
                if nm in ('l_{1:n}', 'o_{1:n}'): key.append(tuple(rng.randint(-2, 3) for _ in range(N)))
                elif nm in ('p_{2:n}', 'q_{2:n}', 'o_{2:n}'): key.append(tuple(rng.randint(-2, 3) for _ in range(max(N - 1, 0))))
                elif nm == 'J_{1:n}': key.append(tuple(rng.randint(0, 2) for _ in range(2)))
                elif nm.startswith('(n_1m'): key.append(tuple((rng.randint(-1, 2), rng.randint(0, 2), rng.randint(1, 3)) for _ in range(rng.randint(1, 2))))
                elif nm.startswith('e^{-(n1'): key.append((rng.randint(-2, 2), rng.randint(-2, 2)))
                else: key.append(rng.randint(-3, 3))
            d[tuple(key)] = F(rng.randint(-9, 9) or 1, rng.choice((rng.randint(1, 9), 10 ** 24 + 7))) if rng.random() < .8 else rng.randint(1, 4)
        p = Poly(d); p.set_keyfor(kf)
        return p
    def flat(kf, key):
        out, names = [], []
        for nm, x in zip(kf, key):
            if nm in ('l_{1:n}', 'o_{1:n}'):
                out += list(x); names += [nm[0] + str(i + 1) for i in range(len(x))]
            elif nm in ('p_{2:n}', 'q_{2:n}', 'o_{2:n}'):
                out += list(x); names += [nm[0] + str(i + 2) for i in range(len(x))]
            else: out.append(x); names.append(nm)
        return names, tuple(out)
    def one(seed, kind):
        def f():
            rng = random.Random(seed * 7 + hash_(kind))
            N = rng.randint(0, 3)
            p = mk(rng, kind, N, rng.choice([0, 1, 3, 6]))
            d0, kf0 = dict(p), tuple(p.keyfor)
            with tempfile.TemporaryDirectory() as td, contextlib.redirect_stdout(io.StringIO()):
                for ext, w, rd in (('.txt', p.write_to_txt, read_txt), ('.csv', p.write_to_csv, read_csv)):
                    for given in ('form' + ext, 'form', 'my.form', 'x.txt.csv' if ext == '.csv' else 'x.csv.txt', 'a.csv' if ext == '.txt' else 'a.txt'):
                        for old in os.listdir(td): os.unlink(os.path.join(td, old))
                        w(os.path.join(td, given))
                        want = given if given.endswith(ext) else given + ext
                        if os.listdir(td) != [want]: return {'input': f'{ext} name {given!r}', 'expected': want, 'actual': str(os.listdir(td))}
                        names, rows = rd(os.path.join(td, want))
                        if ext == '.txt':
                            ok = tuple(names) == kf0 and sorted(map(str, rows)) == sorted(map(str, [(k, F(c)) for k, c in d0.items()]))
                        else:
                            fl = [(flat(kf0, k)[1], F(c)) for k, c in d0.items()]
                            hn = flat(kf0, next(iter(d0)))[0] if d0 else None
                            ok = sorted(map(str, rows)) == sorted(map(str, fl)) and (hn is None or list(names) == hn)
                        if not ok: return {'input': f'write_to{ext} of {d0} over {kf0}', 'expected': str(d0)[:300], 'actual': f'{names} {rows}'[:400]}
                        if dict(p) != d0 or tuple(p.keyfor) != kf0: return {'input': ext, 'expected': 'formula unchanged', 'actual': str(dict(p))}
        return f
    hash_ = lambda s: sum(map(ord, s))
    for kind in ('plain', '2f', 'srjd', 'svvj', 'svcj'):
        for s in range(6 if tier == 'quick' else 60): cases.append((f'round trip {kind} {s}', one(s, kind)))
    def mixed():
        p = Poly({(1, (1,), (0,), (), ()): F(1), (1, (1, 2), (0, 0), (1,), (0,)): F(2)}); p.set_keyfor(('t', 'l_{1:n}', 'o_{1:n}', 'p_{2:n}', 'q_{2:n}'))
        with tempfile.TemporaryDirectory() as td, contextlib.redirect_stdout(io.StringIO()):
            try: p.write_to_csv(os.path.join(td, 'm'))
            except Exception: return None
            names, rows = read_csv(os.path.join(td, 'm.csv'))
            return {'input': 'csv of mixed summation levels', 'expected': 'refused', 'actual': str(rows)}
    cases.append(('csv of mixed levels refused', mixed))
    from . import files
    return cases + files.cases(['write_to_txt', 'write_to_csv', 'write_to_subpolys'], tier)

# ------------------------------------------------------------------ C20
def C20(tier):
    cases = []
    import numpy as np, warnings
    def stress(P):   # strongly violating the Feller condition
        return dict(P)
    base = dict(mu=.1, k=.5, theta=.05, sigma_v=1.5, rho=-.7, h=1)
    base.update({'lambda': 5.0, 'mu_j': -.1, 'sigma_j': .2})
    base2 = dict(mu=.1, k1=.5, theta1=.05, sigma_v1=1.5, k2=.9, theta2=.02, sigma_v2=1.1); base2.update({'lambda': 5.0, 'mu_j': -.1, 'sigma_j': .2})
    def chk(y, n, lab):
        y = np.asarray(y)
        if len(y) != n: return {'input': lab, 'expected': f'{n} samples', 'actual': f'{len(y)}'}
        if not np.all(np.isfinite(y)): return {'input': lab, 'expected': 'finite', 'actual': str(y)[:200]}
    def simp(modname, name, par, v0, lab):
        def f():
            with warnings.catch_warnings():
                warnings.simplefilter('error')
                for seed in range(3 if tier == 'quick' else 20):
                    for nseg in (1, 2, 5, 10):
                        for N in (1, 7, 40):
                            np.random.seed(seed); random.seed(seed)
                            p0 = dict(par)
                            y = fn(modname, name)(v0, par, N, nseg)
                            if par != p0: return {'input': lab, 'expected': 'parameters unchanged', 'actual': str(par)}
                            r = chk(y, N, f'{modname}.{name}(v0={v0}, {par}, N={N}, n_segment={nseg}) numpy seed {seed}')
                            if r: return r
        return f
    for m, name, par, v0 in (('mdl_1fsv.euler', 'r1FSV', base, .05), ('mdl_1fsv.euler', 'r1FSV_iid', base, .05), ('mdl_1fsvj.euler', 'r1FSVJ', base, .05),
                             ('mdl_2fsv.euler', 'r2FSV', base2, None), ('mdl_2fsvj.euler', 'r2FSVJ', base2, None)):
        if v0 is None: v0 = None
        cases.append((f'{name} admissible', simp(m, name, par, v0, name)) if v0 is not None else (f'{name} admissible', simp2(m, name, par, tier)))
    for kind in ('svvj', 'svij', 'svcj', 'srjd'):
        cases.append((f'{kind} simulator', jumpsim(kind, tier)))
    cases.append(('r1FSVJ price jumps', price_jump_once('mdl_1fsvj.euler', 'r1FSVJ', base, False)))
    cases.append(('r2FSVJ price jumps', price_jump_once('mdl_2fsvj.euler', 'r2FSVJ', base2, True)))
    from . import sims
    return cases + sims.cases(tier)

def simp2(m, name, par, tier):
    import numpy as np, warnings
    def f():
        with warnings.catch_warnings():
            warnings.simplefilter('error')
            for seed in range(3 if tier == 'quick' else 20):
                for nseg in (1, 2, 5, 10):
                    for N in (1, 7, 40):
                        np.random.seed(seed)
                        p0 = dict(par)
                        y = np.asarray(fn(m, name)((.05, .02), par, N, nseg))
                        lab = f'{m}.{name}(v0=(.05,.02), {par}, N={N}, n_segment={nseg}) numpy seed {seed}'
                        if par != p0: return {'input': lab, 'expected': 'parameters unchanged', 'actual': str(par)}
                        if len(y) != N: return {'input': lab, 'expected': f'{N} samples', 'actual': str(len(y))}
                        if not np.all(np.isfinite(y)): return {'input': lab, 'expected': 'finite', 'actual': str(y)[:200]}
    return f

class StubRng:
    """random draws replaced by fixed ones: normal -> loc + z*scale, poisson -> npois, chi-square -> its mean"""
    def __init__(self, z=0.0, npois=0, zs=None): self.z, self.npois, self.zs, self.i = z, npois, zs, 0
    def _z(self):
        if self.zs is None: return self.z
        self.i += 1
        return self.zs[(self.i - 1) % len(self.zs)]
    def normal(self, loc=0.0, scale=1.0, size=None):
        import numpy as np
        if size is None: return loc + self._z() * scale
        return np.array([loc + self._z() * scale for _ in range(int(np.prod(size)))]).reshape(size)
    def standard_normal(self, size=None): return self.normal(0.0, 1.0, size)
    def poisson(self, lam=1.0, size=None):
        import numpy as np
        return self.npois if size is None else np.full(size, self.npois)
    def noncentral_chisquare(self, d, nonc, size=None):
        import numpy as np
        return d + nonc if size is None else np.full(size, d + nonc)
    def __getattr__(self, n): raise Missing('stub rng has no ' + n)

class MathProxy:
    def __init__(self, m, log): self.__dict__.update(_m=m, _log=log)
    def __getattr__(self, n): return getattr(self._m, n)
    def sqrt(self, x):
        self._log.append(x)
        return self._m.sqrt(x)

@contextlib.contextmanager
def patched(pairs):
    old = []
    try:
        for o, n, v in pairs:
            if not hasattr(o, n): raise Missing(f'{getattr(o, "__name__", o)}.{n}')
            old.append((o, n, getattr(o, n))); setattr(o, n, v)
        yield
    finally:
        for o, n, v in reversed(old): setattr(o, n, v)

def price_jump_once(m, name, par, two):
    """with the normals at their means and 3 arrivals per interval, y differs from the jump-free y by 3*mu_j"""
    import numpy as np
    def f():
        for nseg in (1, 4):
            ys = []
            for k in (0, 3):
                st = StubRng(npois=k)
                with patched([(np.random, 'normal', st.normal), (np.random, 'poisson', st.poisson)]):
                    ys.append(np.asarray(fn(m, name)((.05, .02) if two else .05, par, 6, nseg)))
            d = ys[1] - ys[0]
            if not np.allclose(d, 3 * par['mu_j'], atol=1e-12):
                return {'input': f'{m}.{name} n_segment={nseg}, all normals at their means, 3 arrivals in each of 6 intervals', 'expected': f'price moved by {3*par["mu_j"]} in each', 'actual': str(d)}
    return f

def jumpsim(kind, tier):
    import numpy as np, math
    paths = [((), ()), ((0.4,), (0.3,)), ((0.1, 0.45, 0.5, 0.9), (.3, .2, .1, .7)), ((0.25, 0.5, 1.0), (.4, .1, .6)), ((1.0,), (.7,)),
             ((0.01, 0.02, 0.03, 0.99), (.1, .2, .3, .4)), ((0.6, 0.6000001, 0.8), (1.5, 2.5, .5))]
    P = dict(v0=.2, mu=.1, k=.9, theta=.3, sigma=.6, rho=-.4, T=1.0)
    mu_s, sg_s, rJ, ls = -.2, .3, -.5, .7
    sv = mod('mdl_svvj.euler'); own = mod(f'mdl_{kind}.euler')
    def call(times, sizes, n, nseg, P=P):
        if kind == 'svvj': return fn('mdl_svvj.euler', 'rSVVJ')(P['v0'], P['mu'], P['k'], P['theta'], P['sigma'], P['rho'], P['T'], sizes, times, n, nseg)
        if kind == 'svij': return fn('mdl_svij.euler', 'rSVIJ')(P['v0'], P['mu'], P['k'], P['theta'], P['sigma'], P['rho'], P['T'], sizes, times, ls, mu_s, sg_s, n, nseg)
        if kind == 'svcj': return fn('mdl_svcj.euler', 'rSVCJ')(P['v0'], P['mu'], P['k'], P['theta'], P['sigma'], P['rho'], P['T'], sizes, times, mu_s, sg_s, rJ, n, nseg)
        return fn('mdl_srjd.euler', 'rSRJD')(P['v0'], P['k'], P['theta'], P['sigma'], P['T'], sizes, times, n)
    mods = [own] if kind in ('svvj', 'srjd') else [own, sv]
    def want0(times, sizes, P=P):
        k, T = P['k'], P['T']
        if kind == 'srjd':
            return P['theta'] + (P['v0'] - P['theta']) * math.exp(-k * T) + sum(J * math.exp(-k * (T - s)) for s, J in zip(times, sizes))
        y = P['mu'] * T - .5 * (P['theta'] * T + (P['v0'] - P['theta']) * (1 - math.exp(-k * T)) / k
                                + sum(J * (1 - math.exp(-k * (T - s))) / k for s, J in zip(times, sizes)))
        if kind == 'svij': y += 3 * mu_s
        if kind == 'svcj': y += sum(mu_s + rJ * J for J in sizes)
        return y
    def f():
        for times, sizes in paths:
            for nseg in (1, 2, 5, 7):
                for n in (1, 3):
                    lab = f'{kind} simulator, v0,..={P}, jump times {times}, sizes {sizes}, n={n}, n_segment={nseg}'
                    # 1. draws at their means: the sample is the exact value with each jump applied once
                    st = StubRng(npois=3)
                    with patched([(m, 'rng', st) for m in mods]):
                        y = np.asarray(call(times, sizes, n, nseg))
                    if y.shape != (n,): return {'input': lab, 'expected': f'{n} samples', 'actual': str(y.shape)}
                    if not np.allclose(y, want0(times, sizes), rtol=1e-11, atol=1e-11):
                        return {'input': lab + ', every draw at its mean', 'expected': str(want0(times, sizes)), 'actual': str(y)}
                    # 2. strong shocks: no square root of a negative number, finite values
                    for zs in ([-3.0, 2.0, 5.0], [-8.0], [4.0, -4.0, -4.0, 1.0, -2.5]):
                        log = []
                        st = StubRng(zs=zs, npois=2)
                        import math as M
                        with patched([(m, 'rng', st) for m in mods] + [(m, 'math', MathProxy(M, log)) for m in mods if hasattr(m, 'math')]):
                            y = np.asarray(call(times, sizes, n, nseg))
                        if log and min(log) < 0: return {'input': lab + f', normal draws cycling {zs}', 'expected': 'no square root of a negative number', 'actual': str(min(log))}
                        if y.shape != (n,) or not np.all(np.isfinite(y)): return {'input': lab + f', normal draws cycling {zs}', 'expected': 'finite samples', 'actual': str(y)}
        if kind == 'srjd': return None
        # 3. each variance jump enters the variance once: with zero noise and slow reversion, the largest variance seen
        Q = dict(P, k=1e-6, theta=1e-3, v0=1e-3)
        for times, sizes0 in paths:
            sizes = tuple(1e6 * x for x in sizes0)
            for nseg in (1, 2, 5, 7):
                log = []
                import math as M
                st = StubRng(npois=0)
                with patched([(m, 'rng', st) for m in mods] + [(m, 'math', MathProxy(M, log)) for m in mods if hasattr(m, 'math')]):
                    call(times, sizes, 1, nseg, Q)
                inside = [J for s, J in zip(times, sizes) if s < Q['T']]
                if not log or not inside: continue
                lev = sum(inside)
                if abs(max(log) / lev - 1) > 1e-4:
                    return {'input': f'{kind} simulator {Q}, jump times {times}, sizes {sizes}, n_segment={nseg}, zero noise', 'expected': f'variance reaches {lev} (every jump once)', 'actual': f'square roots taken of {sorted(set(log))}'[:300]}
    return f

ALL = {f'C{i:02d}': globals()[f'C{i:02d}'] for i in range(1, 21)}
