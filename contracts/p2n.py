"""Numeric values: poly2num and the numeric entry points m, cm, cov, dm, dcm, dcov.

The value of a formula at a parameter assignment is SUM coef * PRODUCT meaning(variable)^exponent.  `MEAN` gives the meaning of
every variable name in terms of the parameters; one contract per poly2num says that the returned number is that sum, that the
formula and the parameters are left alone, and which variable stands at which position of the keys."""
import math
from .base import *
from engine import concrete as cc
from . import m1fsv, m1fsvj, m2fsv, m2fsvj, deriv
from .deriv import KM, KCM, S1, S1J, S2, S2J, P1, P2, J, dterm

EXP1 = Sym('e', False)
TWO = E.const(2)


def ex(x):
    return powE(EXP1, x)


# variable name -> fn(exponent, parameters) ; names not listed stand for the parameter of the same name
MEAN = {
    'e^{-kh}': lambda K, p: ex(-K * p['k'] * p['h']),
    'k^{-}': lambda K, p: powE(p['k'], -K),
    'sqrt(1-rho^2)': lambda K, p: powE(ONE - p['rho'] * p['rho'], K / 2),
    m2fsv.T_: lambda K, p: bval(K, p['k1'], p['k2']),
    m2fsv.E_: lambda K, p: ex(-(K[0] * p['k1'] + K[1] * p['k2']) * p['h']),
}


def meaning(names, key, par, mean=MEAN):
    r = ONE
    for n, K in zip(names, key):
        r = r * (mean[n](K, par) if n in mean else powE(par[n], K))
    return r


def par_of(par):
    if not isinstance(par, DictV):
        raise Undecided('parameters')
    return {k: v for k, v in par.d.values()}


def p2n_f(it, p, par, names, mean=MEAN):
    d = par_of(par)
    return norm_num(bind_over(it.getf(p), lambda k: fscalar(meaning(names, k, d, mean))))


# ---- concrete values
POS = lambda r: Fraction(r.randint(1, 9), r.choice((2, 3, 4, 5)))
ANY = lambda r: Fraction(r.randint(-9, 9) or 1, r.choice((2, 3, 4, 5)))
UNIT_ = lambda r: Fraction(r.choice((-3, -2, -1, 1, 2, 3)), 4)
GEN = {'k': POS, 'k1': POS, 'k2': POS, 'h': POS, 'theta': POS, 'theta1': POS, 'theta2': POS, 'sigma_v': POS, 'sigma_v1': POS, 'sigma_v2': POS,
       'rho': UNIT_, 'mu': ANY, 'lambda': POS, 'mu_j': ANY, 'sigma_j': POS}


def floatE(e, fn=None):
    """(value, sum of absolute values); fn: value of a function application"""
    tot = mag = 0.0
    for m, c in e.t.items():
        v = float(c)
        for b, x in m:
            x = floatE(x, fn)[0] if isinstance(x, E) else float(x)
            if b.kind == 's' and b.key == 'e':
                y = math.e
            elif b.kind == 'n':
                y = float(b.key)
            elif b.kind == 'u':
                y = floatE(b.args[0], fn)[0]
            elif b.kind == 'a' and fn:
                y = fn(b)
            else:
                raise cc.NotConcrete(b.key)
            if y < 0 and x == int(x):
                x = int(x)
            v *= y ** x
        tot += v
        mag += abs(v)
    return tot, mag


def cmp_float(got, exp, env, fn=None):
    if exp[0] != 'num':
        return f'expected {exp!r}'[:300]
    if isinstance(got, bool) or not isinstance(got, (int, float, Fraction)):
        return f'a number is expected, got {got!r}'[:300]
    want, mag = floatE(exp[1], fn)
    if math.isnan(float(got)) or abs(float(got) - want) > 1e-7 * mag + 1e-12:
        return f'got {float(got)!r}, the formula evaluates to {want!r}'
    return None


def dict_of(names):
    d = DictV()
    for n in names:
        d.d[repr(n)] = (n, Sym(n, False))
    return d


def par_req(names):
    r = []
    for n in names:
        if GEN[n] is POS:
            r.append(gt(Sym(n, False), 0))
    if 'rho' in names:
        x = Sym('rho', False)
        r.append(c_lt(x * x, ONE))
    return r


def value_of(it, q, *args):
    return CONTRACTS[q](it, *args)


A1, A1J, A2, A2J = P1 + ('h', 'mu'), P1 + ('h', 'mu') + J, P2 + ('h', 'mu'), P2 + ('h', 'mu') + J
# poly2num -> (names, shape, parameters)
P2N = {S1 + 'mom.': (KM, 'i' * 8, A1), S1 + 'cmom.': (KCM, 'i' * 7, A1),
       S1J + 'mom.': (m1fsvj.KMJ, 'i' * 11, A1J), S1J + 'cmom.': (m1fsvj.KCJ, 'i' * 10, A1J),
       S2 + 'mom.': (m2fsv.KOM, m2fsv.SOM, A2), S2 + 'cmom.': (m2fsv.KOC, m2fsv.SOC, A2),
       S2J + 'mom.': (m2fsvj.KMJ, m2fsvj.SMJ, A2J), S2J + 'cmom.': (m2fsvj.KCJ, m2fsvj.SCJ, A2J)}


def mk_p2n(q, names, shape, pars, mean=MEAN):
    @contract(q + 'poly2num')
    def poly2num(it, poly, par):
        if isinstance(poly, PolyV) and poly.keyfor is not None and len(poly.keyfor) != len(names):
            raise Undecided('formula over other variables')
        return p2n_f(it, poly, par, names, mean)
    Unit(q + 'poly2num', lambda it: ([P('P', shape, keyfor=names), dict_of(pars)], par_req(pars)), gen=dict(GEN), compare=cmp_float)


for q, a in P2N.items():
    mk_p2n(q, *a)

# ---- entry points: value of the formula
WRT_OTHER = StrV('wrt')


def mk_entry(q, fn, formula, p2n, dp, pars, nargs, ranges):
    @contract(q + fn)
    def val(it, *a):
        p = value_of(it, formula, *a[:nargs])
        if dp:
            p = value_of(it, dp, p, a[nargs + 1])
        return value_of(it, p2n, p, a[nargs])
    ls = ['l'] if nargs == 1 else ['l1', 'l2']
    for w in (deriv.DP[dp][2] + deriv.DP[dp][3] + (None,) if dp else ('',)):
        def setup(it, w=w):
            a = [I(x) for x in ls] + [dict_of(pars)]
            r = nonneg(*ls) + par_req(pars)
            if dp:
                a.append(StrV('wrt') if w is None else w)
                if w is None:
                    r += [c_not(eq_val(a[-1], n)) for n in deriv.DP[dp][2] + deriv.DP[dp][3]]
            return a, r
        Unit(q + fn, setup, csetup=(lambda it: ([I(x) for x in ls] + [dict_of(pars), it.rnd.choice(('h', 'v', 'K', ''))], nonneg(*ls) + par_req(pars)))
             if w is None else None, gen=dict(GEN), compare=cmp_float, ranges={x: ranges for x in ls}, tries=4, variant='any other name' if w is None else 'd/d' + w if w else '')


for q, (r1, r2) in {S1: ((0, 3), (1, 2)), S1J: ((0, 3), (1, 1)), S2: ((0, 2), (1, 1)), S2J: ((0, 2), (1, 1))}.items():
    pars = P2N[q + 'mom.'][2]
    for d in ('', 'd'):
        dp = q + 'mom.dpoly' if d else None
        mk_entry(q + 'mom.', d + 'm', q + 'mom.moment_y', q + 'mom.poly2num', dp, pars, 1, r1)
        mk_entry(q + 'cov.', d + 'cov', q + 'cov.cov_yy', q + 'mom.poly2num', dp, pars, 2, r2)
        mk_entry(q + 'cmom.', d + 'cm', q + 'cmom.cmoment_y', q + 'cmom.poly2num', q + 'cmom.dpoly' if d else None, pars, 1, r1)


# ---- the derivative of the value is the value of the derivative, term by term
def dE(e, b):
    """derivative of an expression with respect to the symbol b, as a formal sum over ()"""
    out = FZERO
    for m, c in e.t.items():
        for j, (x, n) in enumerate(m):
            rest = E({m[:j] + m[j + 1:]: c})
            nE = toE(n)
            if x is EXP1BASE:
                out = out + dE(nE, b).scale(rest * powE(EXP1, nE))
                continue
            if b in nE.bases():
                raise Undecided('exponent depends on the parameter')
            if x.kind == 's':
                if x is b:
                    out = out + fscalar(rest * nE * powE(E.base(x), nE - 1))
            elif x.kind == 'u':
                out = out + dE(x.args[0], b).scale(rest * nE * powE(x.args[0], nE - 1))
            elif x.kind == 'a' and x.key.startswith('bval('):
                if nE != ONE:
                    raise Undecided('power of a product of powers')
                bag, k1, k2 = x.args[:3]
                for f, kk in enumerate((k1, k2)):
                    if E.base(b) == kk:
                        ib, dom, co, g = deriv.d_bag(bag, f)
                        n1, n2, i = (bat(bag, E.base(ib[0]), z) for z in range(3))
                        out = out + F((Term((), ib, dom, rest * -i * (n1, n2)[f] / (n1 * k1 + n2 * k2) * E.base(x), ()),))
            elif x.kind == 'n':
                continue
            elif b in val_bases((E.base(x),)):
                raise Undecided('derivative of ' + x.key)
    return out


EXP1BASE = symbase('e', False)


def lemma(q, names, shape, w, mean):
    def fn(it):
        key, _ = gen_key(tuple(shape), 'K')
        pars = {n: Sym(n, False) for n in A1J + P2}
        want = dE(meaning(names, key, pars, mean), symbase(w, False))
        got = bind_over(dterm(key, names, w), lambda k: fscalar(meaning(names, k, pars, mean)))
        chk_equal(it, got, want, 'term by term derivative')
        return 1
    return Lemma(f'd/d{w} of the value of a term over the variables of {q}', fn)


LEMMAS = []
for q, (kf, sh, pars, absent) in deriv.DP.items():
    for w in pars:
        LEMMAS.append(lemma(q, kf, sh, w, MEAN).name)
    for w in absent:
        assert w not in kf
