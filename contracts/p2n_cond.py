"""Numeric values of the formulas of the models with jumps in the variance (svvj, svij, svcj, srjd) and of mdl_1fsv.cond_cmom.

The nested jump sums  fZ = SUM_{j1..jn} PRODUCT_i e^{l_i k s_ji} J_ji s_ji^{o_i} PRODUCT_{i>=2} e^{p_i k s_j1 v..v s_ji} (s_j1 v..v s_ji)^{q_i}
are a function of the four exponent tuples, k, the jump times and sizes (its own contract: utils.fZ)."""
import itertools
from .base import *
from .p2n import *
from .p2n import mk_p2n as _mk

V0, K_, TH, H0 = (Sym(n, False) for n in ('v0', 'k', 'theta', 'h'))


# ---- jump times and sizes: sequences of reals of any length
class RealSeq(OpaqueSeq):
    def __init__(self, name, n=None):
        super().__init__(name, Sym('nJ') if n is None else E.const(n), lambda it, i: FnE('real', StrV(name), i))

    def to_real(self, env):
        if not hasattr(env, 'njump'):
            env.njump = int(self.length.cval()) if self.length.is_const() else int(env.ints.get(symbase('nJ', True), env.rnd.choice((0, 1, 2, 3))))
            env.seqs = {}
        if self.name not in env.seqs:
            r = env.rnd
            env.seqs[self.name] = [Fraction(r.randint(1, 9), 8) for _ in range(env.njump)]
            if self.name == 'jumptime':
                env.seqs[self.name].sort()
        return list(env.seqs[self.name])


JS, ST = RealSeq('jumpsize'), RealSeq('jumptime')


@contract('ajdmom.utils.fZ')
def fZ(it, l, o, p, q, k, s, J):
    return FnE('fZ', seqv(l), seqv(o), seqv(p), seqv(q), k, s, J)


@contract('ajdmom.mdl_srjd.cond2_mom.fZ')
def fZ2(it, l, o, k, s, J):
    return FnE('fZ2', seqv(l), seqv(o), k, s, J)


def seqv(x):
    if isinstance(x, tuple):
        return SeqV(tuple(('e', toE(y)) for y in x))
    if isinstance(x, SeqV):
        return x
    raise Undecided('exponents of a jump sum')


def fz_num(l, o, p, q, k, s, J):
    tot = 0.0
    for idx in itertools.product(range(len(J)), repeat=len(l)):
        v, mx = 1.0, None
        for i, j in enumerate(idx):
            v *= math.exp(l[i] * k * s[j]) * float(J[j]) * float(s[j]) ** o[i]
            mx = s[j] if mx is None else max(mx, s[j])
            if i:
                v *= math.exp(p[i - 1] * k * mx) * float(mx) ** q[i - 1]
        tot += v
    return tot


def fz_one(l, o, p, q, k, s, J):
    v = 1.0
    for i in range(len(l)):
        v *= math.exp(l[i] * k * s[i]) * float(J[i]) * float(s[i]) ** o[i]
        if i:
            mx = max(s[:i + 1])
            v *= math.exp(p[i - 1] * k * mx) * float(mx) ** q[i - 1]
    return v


def fz2_num(l, o, k, s, J):
    tot = 0.0
    for idx in itertools.product(range(len(J)), repeat=len(l)):
        v, mx = 1.0, None
        for i, j in enumerate(idx):
            v *= math.exp(l[i] * k * s[j]) * float(J[j])
            mx = s[j] if mx is None else max(mx, s[j])
            if i:
                v *= math.exp(o[i - 1] * k * mx)
        tot += v
    return tot


def fn_value(b, env):
    name = b.args[-1][1]
    a = b.args[:-1]
    if name == 'PRODR':
        r = 1.0
        for i in range(env.njump):
            r *= floatE(a[2].subst({symbase('#0', True): E.const(i)}), lambda x: fn_value(x, env))[0]
        return r
    if name == 'pow':
        x, y = (floatE(z, lambda q: fn_value(q, env))[0] for z in a[:2])
        return x ** (int(y) if y == int(y) else y)
    if name == 'real':
        return float(env.seqs[a[0].name][int(a[1].cval())])
    if name == 'fZ1':
        seqs = [[int(y[1].cval()) for y in x.p] for x in a if isinstance(x, SeqV)]
        idx = seqs.pop()
        s, J = [env.seqs[x][j] for x in ('jumptime',) for j in idx], [env.seqs['jumpsize'][j] for j in idx]
        return fz_one(*seqs, floatE(a[4])[0], s, J)
    if name in ('fZ', 'fZ2'):
        seqs = [[int(y[1].cval()) for y in x.p] for x in a if isinstance(x, SeqV)]
        k = floatE(a[len(seqs)])[0]
        s, J = env.seqs['jumptime'], env.seqs['jumpsize']
        return (fz_num if name == 'fZ' else fz2_num)(*seqs, k, s, J)
    if name == 'elem':
        return float(a[0].p[int(a[1].cval())][1].cval())
    raise cc.NotConcrete(name)


def cmp_env(got, exp, env):
    return cmp_float(got, exp, env, lambda b: fn_value(b, env))


# ---- the meaning of the variables
def pw(fn):
    return lambda K, p: powE(fn(p), K)


def FZ4(names):
    """four consecutive exponent tuples: the whole factor sits at the first of them"""
    return names


MEANC = {
    'e^{kt}': lambda K, p: ex(K * p['k'] * p['h']),
    'e^{-kt}': lambda K, p: ex(-K * p['k'] * p['h']),
    't': pw(lambda p: p['h']),
    'k^{-}': lambda K, p: powE(p['k'], -K),
    'beta_t': pw(lambda p: (ONE - ex(-p['k'] * p['h'])) / (2 * p['k'])),
    'mu-theta/2': pw(lambda p: p['mu'] - p['theta'] / 2),
    'v0-theta': pw(lambda p: p['v0'] - p['theta']),
    'sigma/2k': pw(lambda p: p['sigma'] / (2 * p['k'])),
    'rho-sigma/2k': pw(lambda p: p['rho'] - p['sigma'] / (2 * p['k'])),
    'sqrt(1-rho^2)': lambda K, p: powE(ONE - p['rho'] * p['rho'], K / 2),
    'E[v]': pw(lambda p: p['theta'] + p['lmbd'] * p['mu_v'] / p['k']),
    'v0-E[v]': pw(lambda p: p['v0'] - (p['theta'] + p['lmbd'] * p['mu_v'] / p['k'])),
    'e^{kt-ub}': lambda K, p: ex(K * p['k'] * p['ub']),
    'e^{ks-lb}': lambda K, p: ex(K * p['k'] * p['lb']),
    '(unused)': lambda K, p: ONE,
    'J_{1:n}': lambda K, p: FnE('PRODR', ZERO, JS.length - 1, powE(JS.get(None, Sym('#0')), FnE('elem', seqv(K), Sym('#0'), isint=True))),
}


def meaning_c(names, key, par, mean=MEANC):
    r = ONE
    i = 0
    while i < len(names):
        n, K = names[i], key[i]
        if n == 'l_{1:n}':
            if 'p_{2:n}' in names:
                r = r * FnE('fZ', *[seqv(x) for x in key[i:i + 4]], par['k'], ST, JS)
                i += 4
            else:
                r = r * FnE('fZ2', *[seqv(x) for x in key[i:i + 2]], par['k'], ST, JS)
                i += 2
            continue
        r = r * (mean[n](K, par) if n in mean else powE(par[n], K))
        i += 1
    return r


GENC = dict(GEN, v0=POS, sigma=POS, lmbd=POS, mu_v=POS, mu_s=ANY, sigma_s=POS, rho_J=ANY, rhoJ=ANY, lmbd_s=POS, lb=lambda r: Fraction(r.randint(0, 3), 4),
            ub=lambda r: Fraction(r.randint(4, 8), 4))
for n in GENC:
    GEN.setdefault(n, GENC[n])


def dict_c(names):
    d = dict_of([n for n in names if n not in ('jumpsize', 'jumptime')])
    for n, s in (('jumpsize', JS), ('jumptime', ST)):
        if n in names:
            d.d[repr(n)] = (n, s)
    return d


def req_c(names):
    r = par_req([n for n in names if n not in ('jumpsize', 'jumptime', 'lb', 'ub')])
    if 'jumpsize' in names:
        r.append(ge(Sym('nJ'), 0))
    return r


def key_gen(names, shape):
    def g(r):
        n = r.choice((0, 0, 1, 2))
        out = []
        for x, s in zip(names, shape):
            if x in ('l_{1:n}', 'o_{1:n}'):
                out.append(tuple(r.randint(-2, 2) if x[0] == 'l' else r.randint(0, 2) for _ in range(n)))
            elif x in ('p_{2:n}', 'q_{2:n}', 'o_{2:n}'):
                out.append(tuple(r.randint(-2, 2) if x[0] == 'p' else r.randint(0, 2) for _ in range(max(0, n - 1))))
            elif s == 'q':
                out.append(tuple(r.randint(0, 3) for _ in range(n)))
            else:
                out.append(r.randint(-2, 3) if x[0] in 'ek' and x[1] in '^{' else r.randint(0, 3))
        return tuple(out)
    return g


def mk_c(q, names, shape, pars, fn='poly2num'):
    @contract(q + fn)
    def poly2num(it, poly, par):
        if isinstance(poly, PolyV) and poly.keyfor is not None and len(poly.keyfor) != len(names):
            raise Undecided('formula over other variables')
        d = par_of(par)
        return norm_num(bind_over(it.getf(poly), lambda k: fscalar(meaning_c(names, k, d))))
    dom = None
    if 'J_{1:n}' in names:
        dom = lambda k: [c_eq(k[-1].length(), JS.length)]
    gen = dict(GENC, P=key_gen(names, shape))
    if dom:
        gen['P'] = lambda r: key_gen(names, shape)(r)
    Unit(q + fn, lambda it: ([P('P', shape, keyfor=names, dom=dom), dict_c(pars)], req_c(pars)), gen=gen, compare=cmp_env,
         ranges={'nJ': (0, 3)})


Q4 = ('l_{1:n}', 'o_{1:n}', 'p_{2:n}', 'q_{2:n}')
PJ = ('v0', 'mu', 'k', 'theta', 'sigma', 'rho', 'h', 'jumpsize', 'jumptime')
PR = ('v0', 'mu', 'k', 'theta', 'sigma', 'rho', 'lmbd', 'mu_v', 'rhoJ', 'mu_s', 'sigma_s', 'h')
VM = ('e^{kt}', 't', 'k^{-}', 'beta_t', 'mu-theta/2', 'v0-theta', 'theta', 'sigma') + Q4 + ('sigma/2k', 'rho-sigma/2k', 'sqrt(1-rho^2)')
VC = ('e^{kt}', 't', 'k^{-}', 'v0-theta', 'theta', 'sigma') + Q4 + ('sigma/2k', 'rho-sigma/2k', 'sqrt(1-rho^2)')
SM, SC = 'i' * 8 + 'qqqq' + 'iii', 'i' * 6 + 'qqqq' + 'iii'
IJ = ('lmbd_s', 'mu_s', 'sigma_s')
YR = ('e^{kt}', 't', 'k^{-}', 'mu', 'v0-theta', 'theta', 'sigma', 'rho', 'lmbd', 'mu_v', 'rhoJ', 'mu_s', 'sigma_s')
D = 'ajdmom.mdl_'
TABLE = {
    D + 'svvj.cond2_mom.': (VM, SM, PJ),
    D + 'svvj.cond2_cmom.': (VC, SC, PJ),
    D + 'svij.cond2_mom.': (VM + IJ, SM + 'iii', PJ + IJ),
    D + 'svij.cond2_cmom.': (VC + IJ, SC + 'iii', PJ + IJ),
    D + 'svcj.cond2_mom.': (VM + ('mu_s', 'rho_J', 'sigma_s', 'J_{1:n}'), SM + 'iiiq', PJ + ('mu_s', 'rho_J', 'sigma_s')),
    D + 'svcj.cond2_cmom.': (VC + ('sigma_s',), SC + 'i', PJ + ('mu_s', 'rho_J', 'sigma_s')),
    D + 'svcj.cond_mom.': (YR, 'i' * 13, PR),
    D + 'svcj.mom.': (YR[:4] + ('E[v]',) + YR[5:], 'i' * 13, PR),
    D + 'svcj.cond_ieii_ieziziz_mom.': (YR[:3] + ('v0-theta', 'theta', 'sigma', 'lmbd', 'mu_v', 'mu_s', 'sigma_s'), 'i' * 10, PR),
    D + 'svcj.ieziziz_mom.': (('e^{kt}', '(unused)', 't', 'k^{-}', 'lmbd', 'mu_v', 'mu_s', 'sigma_s'), 'i' * 8, PR),
    D + 'srjd.cond_ie_iez_mom.': (('e^{kt}', 'k^{-}', 'v0-theta', 'theta', 'sigma', 'lmbd', 'mu_v'), 'i' * 7, PR),
    D + 'srjd.cond_ie_iez_cmom.': (('e^{kt}', 'k^{-}', 'v0-E[v]', 'E[v]', 'sigma', 'lmbd', 'mu_v'), 'i' * 7, PR),
    D + 'srjd.cond2_mom.': (('v0', 'k^{-}', 'theta', 'sigma', 'e^{kt}', 'l_{1:n}', 'o_{2:n}'), 'iiiiiqq', PJ),
    D + 'srjd.cond_mom.': (('e^{kt}', 'k^{-}', 'v0-theta', 'theta', 'sigma', 'lmbd', 'mu_v'), 'i' * 7, PR),
    D + 'srjd.iez_mom.': (('e^{kt-ub}', 'e^{ks-lb}', 'k^{-}', 'lmbd', 'mu_v'), 'i' * 5, ('k', 'lmbd', 'mu_v', 'lb', 'ub')),
    D + '1fsv.cond_cmom.': (('e^{-kh}', 'h', 'k^{-}', 'v0-theta', 'theta', 'sigma_v', 'rho'), 'i' * 7, ('v0',) + A1),
}
MEANC['e^{-kh}'] = MEAN['e^{-kh}']
for q, a in TABLE.items():
    mk_c(q, *a)
