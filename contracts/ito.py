"""ito_mom: time integrals, Ito recursion, moment table, Gamma moments."""
from .base import *
from engine.tables import *

M = 'ajdmom.ito_mom.'
KET = ('e^{k[t-(n-1)h]}', '[t-(n-1)h]', 'k^{-}')
KF = ('e^{k(n-1)h}', 'e^{k[t-(n-1)h]}', '[t-(n-1)h]', 'v_{n-1}', 'k^{-}', 'theta', 'sigma_v')


# ---- c_nmi: (-1)^i m!/(m-i)! / n^(i+1)
@contract(M + 'c_nmi')
def c_nmi(it, n, m, i):
    return powE(E.const(-1), i) * FactE(m) / FactE(m - i) * powE(n, -(i + 1))


Unit(M + 'c_nmi', lambda it: ([I('n'), I('m'), I('i')],
                             [c_not(c_eq(I('n'), ZERO)), ge(I('i'), 0), ge(I('m'), I('i'))]), ranges={'i': (0, 5), 'm': (0, 6)})


# ---- int_et: antiderivative of e^{nkt} t^m vanishing at t = 0
def int_et_closed(n, m):
    """mathematical definition for constant arguments: by parts, from the integral of e^{nkt} t^m over [0,t]"""
    if n == 0:
        return {(0, m + 1, 0): Fraction(1, m + 1)}
    d = {}
    # F_m = t^m e^{nkt}/(nk) - m/(nk) F_{m-1}
    if m == 0:
        return {(n, 0, 1): Fraction(1, n), (0, 0, 1): Fraction(-1, n)}
    d[(n, m, 1)] = Fraction(1, n)
    for (a, b, c), v in int_et_closed(n, m - 1).items():
        k = (a, b, c + 1)
        d[k] = d.get(k, 0) - Fraction(m, n) * v
    return d


def f_of_dict(d):
    return psum(*[fmono(E.const(v), tuple(tuple(E.const(y) for y in x) if isinstance(x, tuple) else E.const(x) for x in k))
                  for k, v in d.items()])


def const_args(args):
    return all(isinstance(a, E) and a.is_const() for a in args)


def def_int_et(args):
    if not const_args(args):
        return None
    n, m = [int(a.cval()) for a in args]
    return f_of_dict(int_et_closed(n, m)) if m >= 0 else None


DEFS['int_et'] = def_int_et
ATOM_REAL['int_et'] = lambda n, m: int_et_closed(n, m)


ATOM_INV['int_et'] = lambda k: [ge(k[1], 0)]
ATOM_INV['M_IEII'] = lambda k: [ge(k[2], 0)]


@contract(M + 'int_et')
def int_et(it, n, m):
    if it.branch(c_lt(m, ZERO)):
        raise PyRaise('ValueError')
    return atom_poly('int_et', (n, m), 'iii', KET)


def ddt(f, a=0, b=1, c=2):
    """derivative in t of a sum of e^{a k t} t^b k^{-c}"""
    def ka(key, da):
        key = list(key)
        for i, v in da.items():
            key[i] = key[i] + v
        return tuple(key)
    t1 = F(Term(t.pb, t.ib, t.dom, t.coef * t.key[a], ka(t.key, {c: -1})) for t in f.ts)
    t2 = F(Term(t.pb, t.ib, t.dom, t.coef * t.key[b], ka(t.key, {b: -1})) for t in f.ts)
    return t1 + t2


def goal_int_et(unit, it, args, out):
    n, m = args
    if out.kind == 'raise':
        if not valid(it.pc, c_lt(m, ZERO)):
            raise Fail('raises for a non-negative power', model_of(it.pc + [ge(m, 0)]))
        return
    if feasible(it.pc + [c_lt(m, ZERO)]):
        raise Fail('returns a value for a negative power', model_of(it.pc + [c_lt(m, ZERO)]))
    f = out.value.f
    cmp_val(it, PolyV(FZERO, out.value.keyfor), PolyV(FZERO, KET), 'variable names')
    chk_equal(it, ddt(f), fmono(ONE, (n, m, ZERO)), 'derivative of the integral')
    # every term is a non-negative power of t, so the value at t = 0 is the t^0 part
    for t in f.ts:
        if not valid(list(it.pc) + list(t.dom), ge(t.key[1], 0)):
            raise Fail('negative power of t', model_of(it.pc))
    at0 = F(Term(t.pb, t.ib, t.dom + (c_eq(t.key[1], ZERO),), t.coef, (t.key[2],)) for t in f.ts)
    chk_equal(it, at0, FZERO, 'value at the lower limit')


Unit(M + 'int_et', lambda it: ([I('n'), I('m')], []), goal=goal_int_et, ranges={'n': (-4, 5), 'm': (-2, 6)})


# ---- int_e_poly: sum over terms of c * factor(tp) * int_et
@contract(M + 'int_e_poly')
def int_e_poly(it, c, tp, m, p):
    sub = {1: (1, 0, 1, 0, 0), 2: (1, 0, 0, 1, 0), 3: (0, 0, 0, 1, 0)}
    for v in (1, 2, 3):
        if it.branch(c_eq(tp, E.const(v))):
            break
    else:
        v = 4
    e1, th_, v0, th, sv = {1: (1, 0, 1, 0, 0), 2: (1, 0, 0, 1, 0), 3: (0, 0, 0, 1, 0), 4: (0, 0, 0, 0, 1)}[v]
    sign = -1 if v == 2 else 1
    f = it.getf(p)
    c_neg = F(Term(t.pb, t.ib, t.dom + (c_lt(t.key[2], ZERO),), ONE, ()) for t in f.ts)
    for t in c_neg.ts:
        if feasible(list(it.pc) + list(t.dom) + inv_conds(t.pb)):
            it.frames[-1].raises.append((t.pb, t.ib, t.dom, 'ValueError'))

    def one(k):
        g = fatom('int_et', (m + k[1], k[2]), 'iii')
        return g.mapkey(lambda q: (k[0] + m + e1, q[0], q[1], k[3] + v0, k[4] + q[2], k[5] + th, k[6] + sv))
    r = bind_over(f, one).scale(toE(c) * sign)
    return poly(r, p.keyfor)


def dom_time(i):
    return lambda key: (ge(key[i], 0),)


def keygen(shape, nonneg=()):
    def g(rnd):
        return tuple(abs(gen_comp(s, rnd)) if i in nonneg else gen_comp(s, rnd) for i, s in enumerate(shape))
    return g


Unit(M + 'int_e_poly', lambda it: ([R('c'), I('tp'), I('m'), P('P', 'iiiiiii', dom=dom_time(2))], []),
     gen={'P': keygen('iiiiiii', (2,))}, ranges={'tp': (1, 4), 'm': (-2, 3)})


# ---- Ito recursion
def ito_pairs(n3, n4, n5):
    """(coefficient, guard, orders after differentiating, exponent of e^{ks} in the bracket)"""
    return [
        (n3 * (n3 - 1) / 2, [ge(n3, 2)], (n3 - 2, n4, n5), 1, 2),     # d<eI> = e^{2ks} v: weight e^{ms}, m per type
        (n4 * (n4 - 1) / 2, [ge(n4, 2)], (n3, n4 - 2, n5), -1, 0),
        (n3 * n4, [ge(n3, 1), ge(n4, 1)], (n3 - 1, n4 - 1, n5), 0, 1),
        (n5 * (n5 - 1) / 2, [ge(n5, 2)], (n3, n4, n5 - 2), -1, 0),
    ]


def MI(*idx):
    return fatom('M_IEII', idx, 'iiiiiii')


def int_weight(f, m, add):
    """INTEGRAL of e^{k m s} f(s) ds over [t0,t], times the fixed monomial `add`  (7-variable keys)"""
    def one(k):
        g = fatom('int_et', (m + k[1], k[2]), 'iii')
        return g.mapkey(lambda q: (k[0] + m + add[0], q[0], q[1], k[3] + add[3], k[4] + q[2], k[5] + add[5], k[6] + add[6]))
    return bind_over(f, one)


def ito_rhs(get, n3, n4, n5):
    """Right-hand side of Ito's formula for E[eI^n3 I^n4 I*^n5 | v]: brackets d<eI>=e^{2ks}v ds, d<I>=v ds,
    d<eI,I>=e^{ks}v ds, d<I*>=v ds with v(s) = e^{-k(s-t0)}(v0-theta)+theta+sigma e^{-ks} eI(s)."""
    r = FZERO
    n3, n4, n5 = toE(n3), toE(n4), toE(n5)
    for coef, guard, idx, m0, m1 in ito_pairs(n3, n4, n5):
        if any(g.op == 'false' for g in guard):
            continue
        w = E.const(m1)                       # exponent of e^{ks} in the bracket
        f = get(*idx)
        up = get(idx[0] + 1, idx[1], idx[2])
        a = int_weight(f, w - 1, (1, 0, 0, 1, 0, 0, 0)) - int_weight(f, w - 1, (1, 0, 0, 0, 0, 1, 0)) \
            + int_weight(f, w, (0, 0, 0, 0, 0, 1, 0)) + int_weight(up, w - 1, (0, 0, 0, 0, 0, 0, 1))
        r = r + a.scale(coef).guard(*guard)
    return r


def def_M(args):
    if not const_args(args):
        return None
    n = [int(a.cval()) for a in args]
    if min(n) < 0:
        return FZERO
    if sum(n) == 0:
        return fmono(ONE, (ZERO,) * 7)
    return ito_rhs(MI, *[E.const(x) for x in n])


DEFS['M_IEII'] = def_M
ATOM_REAL['M_IEII'] = real_poly(M + 'moment_IEII')


def nonneg_all(idx):
    return [ge(x, 0) for x in idx]


TAB = {'atom': 'M_IEII', 'shape': 'iiiiiii', 'keyfor': KF, 'arity': 3}


def two_orders(n):
    """keys of orders n-1 and n-2"""
    def region(idx):
        s = psum_e(idx)
        return c_and(*nonneg_all(idx), c_le(n - 2, s), c_le(s, n - 1))
    return region


def psum_e(idx):
    s = ZERO
    for x in idx:
        s = s + x
    return s


def mk_table(spec, n):
    t = make_table(spec, two_orders(n), 0)
    t.params = (n,)
    t.remake = lambda mp: mk_table(spec, n.subst(mp))
    return t


@contract(M + 'recursive_IEII')
def recursive_IEII(it, n3, n4, n5, tab):
    return poly(rec_rhs(it, ito_pairs, ito_rhs, tab, (n3, n4, n5), lambda i: (i[0] + 1,) + tuple(i[1:])), KF)


def rec_rhs(it, pairs, rhs, tab, idx, *ups):
    """Ito right-hand side with the lower orders read from the table: every order that occurs must be present"""
    idx = [toE(x) for x in idx]
    for p in pairs(*idx):
        guard, low = p[1], p[2]
        live = c_and(*guard)
        if not feasible(it.pc + [live]):
            continue
        saved = it.pc
        it.pc = list(it.pc) + [live]
        try:
            for q in [low] + [u(low) for u in ups]:
                check_present(it, tab, q)
        finally:
            it.pc = saved

    def get(*i):
        return tab_value(it, tab, i)
    return rhs(get, *idx)


def check_present(it, tab, q):
    t = as_table(it, tab)
    r = t.region(tuple(toE(x) for x in q))
    if not valid(it.pc, r):
        raise Undecided(f'order {q!r} may be missing from the table')


def tab_value(it, tab, i):
    t = as_table(it, tab)
    return t.value(it, tuple(toE(x) for x in i)).f


def setup_rec(it):
    n = [I('n3'), I('n4'), I('n5')]
    tab = mk_table(TAB, n[0] + n[1] + n[2])
    return n + [tab], [ge(x, 0) for x in n] + [ge(n[0] + n[1] + n[2], 1)]


Unit(M + 'recursive_IEII', setup_rec, opts={'ifmerge': True}, ranges={x: (0, 4) for x in ('n3', 'n4', 'n5')},
     gen={'M_IEII': keygen('iiiiiii', (2,))})


UNFOLD['M_IEII'] = lambda *n: (c_and(*nonneg_all(n), ge(psum_e(n), 1)), ito_rhs(MI, *n))


# ---- moment table
@contract(M + 'moment_IEII')
def moment_IEII(it, n3, n4, n5):
    if it.branch(c_lt(n3 + n4 + n5, ZERO)):
        raise PyRaise('ValueError')
    return atom_poly('M_IEII', (n3, n4, n5), 'iiiiiii', KF)


Unit(M + 'moment_IEII', lambda it: ([I('n3'), I('n4'), I('n5')], nonneg_all([I('n3'), I('n4'), I('n5')])),
     opts={'table': TAB}, ranges={x: (0, 3) for x in ('n3', 'n4', 'n5')}, tries=15)


# ---- moments of the stationary (Gamma) variance: V_n = V_{n-1} * (theta + (n-1)/2 * sigma_v^2/k)
KV = ('theta', 'sigma_v^2/k')


def gamma_step(f, n):
    return f.mapkey(lambda k: (k[0] + 1, k[1])) + f.mapkey(lambda k: (k[0], k[1] + 1)).scale((n - 1) / 2)


def def_V(args):
    if not const_args(args):
        return None
    n = int(args[0].cval())
    return fmono(ONE, (ZERO, ZERO)) if n == 0 else gamma_step(fatom('V', (E.const(n - 1),), 'ii'), E.const(n))


DEFS['V'] = def_V
UNFOLD['V'] = lambda n: (ge(n, 1), gamma_step(fatom('V', (n - 1,), 'ii'), n))
ATOM_REAL['V'] = real_poly(M + 'moment_v')


@contract(M + 'moment_v')
def moment_v(it, n):
    if not valid(it.pc, ge(n, 0)):
        raise Undecided('moment_v: order may be negative')
    return atom_poly('V', (n,), 'ii', KV)


Unit(M + 'moment_v', lambda it: ([I('n')], [ge(I('n'), 0)]),
     opts={'list': {'atom': 'V', 'shape': 'ii', 'keyfor': KV}}, ranges={'n': (0, 6)})
