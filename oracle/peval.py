"""Value of a formula read off its variable names only (independent of the package's own decoders)."""
import mpmath as mp
from .process import to_mp
from .models import fZ_true

def bases(names, P):
    """P: dict of mp values for k,h,t,... -> list of base values/None for structured comps"""
    e = mp.e
    g = P.get
    t = {}
    def put(n, f):
        try: t[n] = f()
        except (TypeError, KeyError): pass
    put('e^{-kh}', lambda: e ** (-P['k'] * P['h'])); put('h', lambda: P['h']); put('k^{-}', lambda: 1 / P['k'])
    put('e^{-kt}', lambda: e ** (-P['k'] * P['h'])); put('e^{kt}', lambda: e ** (P['k'] * P['h'])); put('t', lambda: P['h'])
    put('e^{kh}', lambda: e ** (P['k'] * P['h']))
    put('e^{ks}', lambda: e ** (P['k'] * P['s'])); put('s', lambda: P['s']); put('t-s', lambda: P['h'] - P['s'])
    for n in ('mu', 'theta', 'rho', 'lambda', 'mu_j', 'sigma_j', 'theta1', 'theta2', 'lmbd', 'mu_v', 'rhoJ', 'mu_s', 'sigma_s', 'rho_J', 'lmbd_s', 'v0'):
        put(n, lambda n=n: P[n])
    put('sigma_v', lambda: P['sigma']); put('sigma', lambda: P['sigma'])
    put('sigma_v1', lambda: P['sigma1']); put('sigma_v2', lambda: P['sigma2'])
    put('sqrt(1-rho^2)', lambda: mp.sqrt(1 - P['rho'] ** 2))
    put('v0-theta', lambda: P['v0'] - P['theta'])
    put('theta-v0', lambda: P['theta'] - P['v0'])
    put('beta_t', lambda: (1 - e ** (-P['k'] * P['h'])) / (2 * P['k']))
    put('mu-theta/2', lambda: P['mu'] - P['theta'] / 2)
    put('sigma/2k', lambda: P['sigma'] / (2 * P['k'])); put('rho-sigma/2k', lambda: P['rho'] - P['sigma'] / (2 * P['k']))
    put('E[v]', lambda: P['theta'] + P['lmbd'] * P['mu_v'] / P['k'])
    put('v_{n-1}', lambda: P['v0'])
    put('e^{k(n-1)h}', lambda: e ** (P['k'] * P['t0'])); put('e^{k[t-(n-1)h]}', lambda: e ** (P['k'] * P['t'])); put('[t-(n-1)h]', lambda: P['t'])
    put('sigma^2', lambda: P['sigma'] ** 2)
    put('lambda*h', lambda: P['lambda'] * P['h'])
    put('sigma_v^2/k', lambda: P['sigma'] ** 2 / P['k'])
    put('v_{1,n-1}', lambda: P['v1']); put('v_{2,n-1}', lambda: P['v2'])
    put('v_0', lambda: P['v0']); put('v_0-theta', lambda: P['v0'] - P['theta'])
    put('v0-E[v]', lambda: P['v0'] - P['theta'] - P['lmbd'] * P['mu_v'] / P['k'])
    put('J_i', lambda: P['J_i']); put('sigma_s^2', lambda: P['sigma_s'] ** 2)
    put('e^{-k1h}', lambda: e ** (-P['k1'] * P['h'])); put('e^{-k2h}', lambda: e ** (-P['k2'] * P['h']))
    put('k1^{-}', lambda: 1 / P['k1']); put('k2^{-}', lambda: 1 / P['k2'])
    put('e^{k[t-(n-1)h]}', lambda: e ** (P['k'] * P['t']))
    t.update(P.get('_extra', {}))
    return [t.get(n) for n in names]

SEQ = ('l_{1:n}', 'o_{1:n}', 'p_{2:n}', 'q_{2:n}', 'o_{2:n}')

def value(poly, P, names=None, jumps=None):
    """jumps = (times, sizes)"""
    names = tuple(names if names is not None else poly.keyfor)
    P = {a: (to_mp(b) if a != '_extra' else b) for a, b in P.items()}
    B = bases(names, P)
    seqpos = {n: i for i, n in enumerate(names) if n in SEQ}
    jpos = names.index('J_{1:n}') if 'J_{1:n}' in names else None
    tot = mp.mpf(0)
    fz = {}
    for key, c in poly.items():
        if len(key) != len(names): 
            if c == 0: continue
            raise AssertionError(f'key {key} does not match variables {names}')
        v = to_mp(c)
        l = {}
        for i, (n, x) in enumerate(zip(names, key)):
            if n in seqpos: l[n] = x; continue
            if i == jpos:
                for e, J in zip(x, jumps[1]): v *= to_mp(J) ** e
                continue
            if n.startswith('(n_1m*k1'):
                for (n1, n2, m) in x:
                    if (n1, n2) == (0, 0): assert m == 0 or c == 0, key
                    else: v *= (n1 * P['k1'] + n2 * P['k2']) ** (-m)
                continue
            if n == 'e^{(m_4*k1+m_6*k2)(n-1)h}':
                v *= mp.e ** ((x[0] * P['k1'] + x[1] * P['k2']) * P['t0']); continue
            if n == 'e^{(j_1*k1+j_2*k2)[t-(n-1)h]}':
                v *= mp.e ** ((x[0] * P['k1'] + x[1] * P['k2']) * P['t']); continue
            if n in ('e^{-(n1*k1+n2*k2)h}', 'e^{-(m1*k1+m2*k2)h}') or (isinstance(x, tuple) and n.startswith('e^{-')):
                v *= mp.e ** (-(x[0] * P['k1'] + x[1] * P['k2']) * P['h']); continue
            if x == 0: continue
            b = B[i]
            if b is None: raise KeyError(f'no meaning for variable {n!r}')
            if b == 0 and x < 0: raise ZeroDivisionError(n)
            v *= b ** x
        if l:
            if 'o_{2:n}' in l:   # square-root jump-diffusion: only e^{o k max} weights
                L = l['l_{1:n}']; z = (0,) * max(len(L) - 1, 0)
                kk = (L, (0,) * len(L), l['o_{2:n}'], z)
            else:
                kk = tuple(l[n] for n in SEQ[:4])
            if not (len(kk[0]) == len(kk[1]) and len(kk[2]) == len(kk[3]) == max(len(kk[0]) - 1, 0)):
                raise AssertionError(f'ill-formed jump exponents {kk}')
            if kk not in fz: fz[kk] = fZ_true(*kk, P['k'], *jumps)
            v *= fz[kk]
        tot += v
    return tot

def close(a, b, rel=mp.mpf(10) ** -25, abs_=mp.mpf(10) ** -30):
    a, b = mp.mpf(a), mp.mpf(b)
    return abs(a - b) <= abs_ + rel * max(abs(a), abs(b))
