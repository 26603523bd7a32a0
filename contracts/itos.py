"""itos_mom: the two-factor Ito recursion.  Keys carry a tuple ((n1, n2, i), ...) denoting PRODUCT (n1 k1 + n2 k2)^{-i} (a Bag)."""
from .base import *
from engine.tables import *
from .ito import rec_rhs, nonneg_all, psum_e, two_orders, const_args

M = 'ajdmom.itos_mom.'
KET = ('(n1*k1+n2*k2)^{-}', 'e^{(n1*k1+n2*k2)[t-(n-1)h]}', '[t-(n-1)h]')
KF = ('(n_1m*k1+n_2m*k2)^{-i_m},...,(n_11*k1+n_21*k2)^{-i_1}', 'e^{(m_4*k1+m_6*k2)(n-1)h}', 'e^{(j_1*k1+j_2*k2)[t-(n-1)h]}',
      '[t-(n-1)h]', 'v_{1,n-1}', 'theta1', 'sigma_v1', 'v_{2,n-1}', 'theta2', 'sigma_v2')
SH = ('T', 2, 2, 'i', 'i', 'i', 'i', 'i', 'i', 'i')
SHET = (3, 2, 'i')


@contract(M + 'c')
def c(it, n1, n2, m, i):
    return ((n1, n2, i + 1), powE(E.const(-1), i) * FactE(m) / FactE(m - i))


Unit(M + 'c', lambda it: ([I('n1'), I('n2'), I('m'), I('i')], [ge(I('i'), 1), ge(I('m'), I('i'))]), ranges={'i': (1, 5), 'm': (1, 6)})


# ---- INTEGRAL over [0,t] of e^{(n1 k1 + n2 k2)s} s^m
def int_closed(n1, n2, m):
    if n1 == 0 and n2 == 0:
        return {((0, 0, 0), (0, 0), m + 1): Fraction(1, m + 1)}
    if m == 0:
        return {((n1, n2, 1), (n1, n2), 0): Fraction(1), ((n1, n2, 1), (0, 0), 0): Fraction(-1)}
    d = {((n1, n2, 1), (n1, n2), m): Fraction(1)}
    for ((a, b, i), e, j), v in int_closed(n1, n2, m - 1).items():
        k = ((n1, n2, i + 1), e, j)
        d[k] = d.get(k, 0) - m * v
    return d


def def_int(args):
    if not const_args(args):
        return None
    n1, n2, m = [int(a.cval()) for a in args]
    if m < 0:
        return None
    from .ito import f_of_dict
    return f_of_dict(int_closed(n1, n2, m))


DEFS['int2'] = def_int
ATOM_REAL['int2'] = int_closed
ATOM_INV['int2'] = lambda k: [ge(k[2], 0)]


@contract(M + 'int_et')
def int_et(it, n1, n2, m):
    if it.branch(c_lt(m, ZERO)):
        raise PyRaise('ValueError')
    return atom_poly('int2', (n1, n2, m), SHET, KET)


def goal_int(unit, it, args, out):
    n1, n2, m = args
    if out.kind == 'raise':
        if not valid(it.pc, c_lt(m, ZERO)):
            raise Fail('raises for a non-negative power', model_of(it.pc + [ge(m, 0)]))
        return
    if feasible(it.pc + [c_lt(m, ZERO)]):
        raise Fail('returns a value for a negative power', model_of(it.pc + [c_lt(m, ZERO)]))
    f = it.getf(out.value)
    cmp_val(it, PolyV(FZERO, out.value.keyfor), PolyV(FZERO, KET), 'variable names')
    # d/dt: the exponential contributes (p k1 + q k2), which must be 0 or the rate whose power the key carries
    rate, flat, low = [], [], []
    for t in f.ts:
        (a, b, i), (p, q), j = t.key
        pc = list(it.pc) + list(t.dom)
        if not feasible(pc):
            continue
        if not valid(pc, ge(j, 0)):
            raise Fail('negative power of t', model_of(pc))
        if not valid(pc, c_or(c_eq(i, ZERO), c_and(c_eq(a, n1), c_eq(b, n2), c_or(c_not(c_eq(a, ZERO)), c_not(c_eq(b, ZERO)))))):
            raise Fail('denominator is not a power of the rate', model_of(pc))
        zero = c_and(c_eq(p, ZERO), c_eq(q, ZERO))
        if not valid(pc, c_or(zero, c_and(c_eq(p, n1), c_eq(q, n2)))):
            raise Fail('exponential with another rate', model_of(pc))
        rate.append(Term(t.pb, t.ib, t.dom + (c_not(zero),), t.coef, (i - 1, p, q, j)))
        rate.append(Term(t.pb, t.ib, t.dom, t.coef * j, (i, p, q, j - 1)))
        low.append(Term(t.pb, t.ib, t.dom + (c_eq(j, ZERO),), t.coef, (i,)))
    chk_equal(it, F(rate), fmono(ONE, (ZERO, n1, n2, m)), 'derivative of the integral')
    chk_equal(it, F(low), FZERO, 'value at the lower limit')


def cmp_norm(norm):
    """compare up to the order of factors"""
    return norm


Unit(M + 'int_et', lambda it: ([I('n1'), I('n2'), I('m')], []), goal=goal_int, ranges={'n1': (-3, 3), 'n2': (-3, 3), 'm': (-2, 6)},
     keyshape=SHET)


# ---- t_mul_t0
def T1(t):
    return Bag((), (tuple(t),))


@contract(M + 't_mul_t0')
def t_mul_t0(it, t, t0):
    b = t0.as_bag(it) if isinstance(t0, BagSeq) else t0
    if not isinstance(b, Bag):
        if isinstance(t0, tuple) and all(isinstance(x, tuple) and len(x) == 3 for x in t0) and t0:
            b = Bag((), t0)
        else:
            raise Undecided('t0')
    # only a bare symbol can stand for an empty tuple: products are results of this function, keys hold non-empty tuples
    if (b.pure() or t0 == ()) and not valid(it.pc, ge(blen(b), 1)) and not valid(it.pc, ge(tlen(b), 1)):
        raise PyRaise('IndexError') if valid(it.pc, c_eq(blen(b), ZERO)) else Undecided('possibly empty tuple')
    return b.mul(T1(t))


def setup_t(it):
    b = Base('T', 't0')
    s = BagSeq((), Bag((b,), ()), 3, 0)
    return [(I('n1'), I('n2'), I('i')), s], [ge(I('i'), 0), ge(s.n, 1)]


def goal_t(unit, it, args, out):
    if out.kind != 'value':
        raise Fail('raises', model_of(it.pc))
    v = out.value
    if isinstance(v, tuple) and v and all(isinstance(x, tuple) and len(x) == 3 for x in v):
        v = Bag((), v)
    if not isinstance(v, (Bag, BagSeq)):
        raise Fail('not a tuple of triples', model_of(it.pc))
    cmp_val(it, v, args[1].bag.mul(T1(args[0])), 'product of the powers')


def csetup_t(it):
    t = tuple(it.rnd.randint(-2, 3) for _ in range(2))
    b = gen_comp('T', it.rnd)
    if it.rnd.random() < .4:
        t = b[0][:2]
    it.rt = t + (it.rnd.randint(0, 3) if t != (0, 0) else 0,)
    it.rb = b
    lit = lambda x: tuple(lit(y) if isinstance(y, tuple) else E.const(y) for y in x)
    return [lit(it.rt), lit(b)], []


def spec_t(it, t, t0):
    return PolyV(fmono(ONE, (Bag((), tuple(t0)).mul(T1(t)),)), None)


def t_real(t, t0):
    from engine import concrete as cc
    return cc.real('ajdmom.poly.Poly')({(cc.real(M + 't_mul_t0')(t, t0),): 1})


Unit(M + 't_mul_t0', setup_t, goal=goal_t, csetup=csetup_t, spec=spec_t, real_call=t_real, keyshape=('T',))


# ---- integrals of whole polynomials
def inv_M(k):
    return [ge(k[3], 0), ge(tlen(k[0]), 1)] if isinstance(k[0], Bag) and k[0].at and not k[0].tr else [ge(k[3], 0)]


ATOM_INV['M_two'] = inv_M
SYM = {1: (0, (4, 5, 6)), 2: (1, (7, 8, 9))}


def up(pair, which, m):
    return tuple(x + m if i == which else x for i, x in enumerate(pair))


def integrate(f, fac, m):
    """INTEGRAL of e^{m k_fac s} f(s) ds over [t0, t]"""
    w = fac - 1

    def ob(k):
        n1, n2 = up(k[2], w, m)
        g = fatom('int2', (n1, n2, k[3]), SHET)
        return g.mapkey(lambda q: (k[0].mul(T1(q[0])), up(k[1], w, m), q[1], q[2]) + tuple(k[4:]))
    return bind_over(f, ob)


@contract(M + 'int_mIEI_IEII')
def int_mIEI_IEII(it, i, m, n4, n5, n6, n7, n8, tab):
    check = tuple(toE(x) for x in (n4, n5, n6, n7, n8))
    from .ito import check_present, tab_value
    check_present(it, tab, check)
    f = tab_value(it, tab, check)
    fac = 1 if it.branch(c_eq(toE(i), ONE)) else 2
    return poly(integrate(f, fac, m), KF)


# factor of each of the eight brackets: (sign, component raised, exponent of e^{k t0} raised)
TP = {1: (1, 4, 0), 2: (-1, 5, 0), 3: (1, 5, None), 4: (1, 6, None), 5: (1, 7, 1), 6: (-1, 8, 1), 7: (1, 8, None), 8: (1, 9, None)}


def times(f, tp):
    s, comp, e = TP[tp]

    def mk(k):
        k = list(k)
        if e is not None:
            k[1] = up(k[1], e, 1)
        k[comp] = k[comp] + 1
        return tuple(k)
    return f.mapkey(mk).scale(E.const(s))


@contract(M + 'coef_poly')
def coef_poly(it, coef, p, tp):
    for v in TP:
        if it.branch(c_eq(toE(tp), E.const(v))):
            return poly(times(it.getf(p), v).scale(coef), KF)
    return poly(FZERO, KF)


def tkey(rnd):
    return (gen_comp('T', rnd), gen_comp(2, rnd), gen_comp(2, rnd), rnd.randint(0, 3)) + tuple(rnd.randint(0, 3) for _ in range(6))


Unit(M + 'coef_poly', lambda it: ([R('c'), P('P', SH, keyfor=KF), I('tp')], []), gen={'P': tkey}, ranges={'tp': (0, 9)}, keyshape=SH)


# ---- Ito recursion: brackets of eI1, I1, eI2, I2, I* with v_f(s) = e^{-k_f(s-t0)}(v_f0-theta_f) + theta_f + sigma_f e^{-k_f s} eI_f(s)
def pairs(n4, n5, n6, n7, n8):
    """(coefficient, guard, lower orders, [(factor, exponent of e^{k_f s} in the bracket)])"""
    n = (n4, n5, n6, n7, n8)
    out = []
    for f, (a, b) in ((1, (0, 1)), (2, (2, 3))):
        out.append((n[a] * (n[a] - 1) / 2, [ge(n[a], 2)], up_t(n, {a: -2}), [(f, 2)]))
        out.append((n[b] * (n[b] - 1) / 2, [ge(n[b], 2)], up_t(n, {b: -2}), [(f, 0)]))
        out.append((n[a] * n[b], [ge(n[a], 1), ge(n[b], 1)], up_t(n, {a: -1, b: -1}), [(f, 1)]))
    out.append((n8 * (n8 - 1) / 2, [ge(n8, 2)], up_t(n, {4: -2}), [(1, 0), (2, 0)]))
    return out


def up_t(n, d):
    return tuple(x + d.get(i, 0) for i, x in enumerate(n))


def rhs(get, *n):
    n = [toE(x) for x in n]
    r = FZERO
    for coef, guard, idx, brs in pairs(*n):
        if any(g.op == 'false' for g in guard):
            continue
        f = get(*idx)
        for fac, w in brs:
            w = E.const(w)
            tp = 1 if fac == 1 else 5
            upf = get(*up_t(idx, {0 if fac == 1 else 2: 1}))
            a = times(integrate(f, fac, w - 1), tp) + times(integrate(f, fac, w - 1), tp + 1) + times(integrate(f, fac, w), tp + 2) \
                + times(integrate(upf, fac, w - 1), tp + 3)
            r = r + a.scale(coef).guard(*guard)
    return r


def M2(*idx):
    return fatom('M_two', idx, SH)


def def_M(args):
    if not const_args(args):
        return None
    n = [int(a.cval()) for a in args]
    if min(n) < 0:
        return FZERO
    if sum(n) == 0:
        return fmono(ONE, (Bag((), ()), (ZERO, ZERO), (ZERO, ZERO)) + (ZERO,) * 7)
    return rhs(M2, *[E.const(x) for x in n])


DEFS['M_two'] = def_M
ATOM_REAL['M_two'] = real_poly(M + 'moment_IEI_IEII')
UNFOLD['M_two'] = lambda *n: (c_and(*nonneg_all(n), ge(psum_e(n), 1)), rhs(M2, *n))
TAB = {'atom': 'M_two', 'shape': SH, 'keyfor': KF, 'arity': 5}


def mk_table(n):
    t = make_table(TAB, two_orders(n), 0)
    t.params = (n,)
    t.remake = lambda mp: mk_table(n.subst(mp))
    return t


N5 = ('n4', 'n5', 'n6', 'n7', 'n8')


def setup_int(it):
    n = [I(x) for x in N5]
    t = mk_table(psum_e(n) + 1)
    return [I('i'), I('m')] + n + [t], nonneg_all(n) + [c_or(c_eq(I('i'), ONE), c_eq(I('i'), E.const(2)))]


Unit(M + 'int_mIEI_IEII', setup_int, ranges={'i': (1, 2), 'm': (-2, 3), **{x: (0, 1) for x in N5}}, gen={'M_two': tkey}, keyshape=SH)


@contract(M + 'recursive_IEI_IEII')
def recursive(it, n4, n5, n6, n7, n8, tab):
    return poly(rec_rhs(it, pairs, rhs, tab, (n4, n5, n6, n7, n8), lambda i: up_t(i, {0: 1}), lambda i: up_t(i, {2: 1})), KF)


def setup_rec(it):
    n = [I(x) for x in N5]
    return n + [mk_table(psum_e(n))], nonneg_all(n) + [ge(psum_e(n), 1)]


Unit(M + 'recursive_IEI_IEII', setup_rec, opts={'ifmerge': True}, ranges={x: (0, 3) for x in N5}, gen={'M_two': tkey}, keyshape=SH, tries=12, cost=9)


@contract(M + 'moment_IEI_IEII')
def moment(it, n4, n5, n6, n7, n8, return_all=False):
    n = tuple(toE(x) for x in (n4, n5, n6, n7, n8))
    if it.branch(c_lt(psum_e(n), ZERO)):
        raise PyRaise('ValueError')
    if return_all is not False:
        raise Undecided('return_all')
    return atom_poly('M_two', n, SH, KF)


Unit(M + 'moment_IEI_IEII', lambda it: ([I(x) for x in N5], nonneg_all([I(x) for x in N5])), opts={'table': TAB, 'normT': True},
     ranges={x: (0, 2) for x in N5}, tries=10, keyshape=SH, cost=9)


def goal_all(unit, it, args, out):
    """the returned table holds every order below the requested total, and the requested one"""
    n = args[:5]
    if out.kind != 'value':
        raise Fail('raises', model_of(it.pc))
    t = as_table(it, out.value)
    q = tuple(Sym(fresh('q'), True) for _ in n)
    want = c_and(*nonneg_all(q), c_or(c_lt(psum_e(q), psum_e(n)), c_and(*[c_eq(a, b) for a, b in zip(q, n)])))
    if not valid(it.pc + [want], t.region(q)):
        raise Fail('a lower order is missing from the returned table', model_of(it.pc + [want, c_not(t.region(q))]))


def run_all(*a):
    """run-time form: the sum over the returned orders of marker * moment is compared entry by entry"""
    from engine import concrete as cc
    T = cc.real(M + 'moment_IEI_IEII')(*a)
    n = a[:5]
    import itertools
    for q in itertools.product(range(sum(n) + 1), repeat=5):
        if sum(q) < sum(n) or q == tuple(n):
            if dict(T[q]) != dict(cc.real(M + 'moment_IEI_IEII')(*q)):
                raise AssertionError(f'order {q} of the table returned for {n}')
    return T[tuple(n)]


Unit(M + 'moment_IEI_IEII', lambda it: ([I(x) for x in N5] + [True], nonneg_all([I(x) for x in N5])), opts={'table': TAB, 'normT': True},
     goal=goal_all, ranges={x: (0, 1) for x in N5}, tries=6, keyshape=SH, cost=9, variant='all lower orders', real_call=run_all,
     spec=lambda it, a, b, cc_, d, e, _: atom_poly('M_two', (a, b, cc_, d, e), SH, KF))
