"""mdl_1fsv.cond_cmom and mdl_svvj.cond2_*: conditional (central) moments of the return.

    y - E[y | v0] = (sigma/2k) e^{-kt} eI + (rho - sigma/2k) I + sqrt(1-rho^2) I*
    c_n = SUM_{i+j+m=n} n!/(i!j!m!) e^{-ikt} (sigma/2k)^i (rho-sigma/2k)^j sqrt(1-rho^2)^m E[eI^i I^j I*^m]"""
from .base import *
from engine.tables import *
from .ito import rec_rhs, ito_pairs, nonneg_all, psum_e, two_orders, keygen
from . import ito_cond
from .utils_c import mod2
from .ito_cond import MC, KF as KFC, SH as SHC, folded, TAB as TABC

C1 = 'ajdmom.mdl_1fsv.cond_cmom.'
K6 = ('e^{kt}', 't', 'k^{-}', 'v_0-theta', 'theta', 'sigma')
K9 = K6 + ('sigma/2k', 'rho-sigma/2k', 'sqrt(1-rho^2)')


# ---- INTEGRAL of e^{kms} f(s) ds over [0,t] times a fixed monomial
def integrate6(f, m, add):
    def one(k):
        return fatom('int_et', (m + k[0], k[1]), 'iii').mapkey(
            lambda q: (q[0], q[1], q[2] + k[2], k[3] + add[0], k[4] + add[1], k[5] + add[2]))
    return bind_over(f, one)


@contract(C1 + 'int_mIEII')
def int_mIEII(it, c, tp, m, p):
    f = it.getf(p)
    ito_cond.raise_neg(it, f)
    if it.branch(c_eq(tp, ONE)):
        add = (1, 0, 0)
    elif it.branch(c_eq(tp, E.const(2))):
        add = (0, 1, 0)
    else:
        add = (0, 0, 1)
    return poly(integrate6(f, m, add).scale(c), p.keyfor)


Unit(C1 + 'int_mIEII', lambda it: ([R('c'), I('tp'), I('m'), P('P', 'iiiiii', dom=lambda k: [ge(k[1], 0)])], []), gen={'P': keygen('iiiiii', (1,))},
     ranges={'tp': (1, 3), 'm': (-2, 3)})


def M6(*idx):
    return fatom('M6', idx, 'iiiiii')


def rhs6(get, n1, n2, n3):
    r = FZERO
    n1, n2, n3 = toE(n1), toE(n2), toE(n3)
    for coef, guard, idx, m0, m1 in ito_pairs(n1, n2, n3):
        if any(g.op == 'false' for g in guard):
            continue
        w = E.const(m1)
        f, up = get(*idx), get(idx[0] + 1, idx[1], idx[2])
        a = integrate6(f, w - 1, (1, 0, 0)) + integrate6(f, w, (0, 1, 0)) + integrate6(up, w - 1, (0, 0, 1))
        r = r + a.scale(coef).guard(*guard)
    return r


def def_M6(args):
    if not all(isinstance(a, E) and a.is_const() for a in args):
        return None
    n = [int(a.cval()) for a in args]
    if min(n) < 0:
        return FZERO
    if sum(n) == 0:
        return fmono(ONE, (ZERO,) * 6)
    return rhs6(M6, *[E.const(x) for x in n])


def inv6(k, args):
    return [ge(k[1], 0), c_eq(mod2(args[2]), ZERO)]


inv6.with_args = True
DEFS['M6'] = def_M6
ATOM_INV['M6'] = inv6


def real_M6(n1, n2, n3):
    from engine import concrete as cc
    from fractions import Fraction
    Poly, rec = cc.real('ajdmom.poly.Poly'), cc.real(C1 + 'recursive_IEII')
    n = n1 + n2 + n3
    z = Poly({(0,) * 6: Fraction(0)})
    o = Poly({(0,) * 6: Fraction(1)})
    z.set_keyfor(K6), o.set_keyfor(K6)
    T = {(0, 0, 0): o, (1, 0, 0): z, (0, 1, 0): z, (0, 0, 1): z}
    for s in range(2, n + 1):
        for i in range(s, -1, -1):
            for j in range(s - i, -1, -1):
                T[i, j, s - i - j] = rec(i, j, s - i - j, T)
    return {k: v for k, v in T[n1, n2, n3].items() if v}


ATOM_REAL['M6'] = real_M6
UNFOLD['M6'] = lambda *n: (c_and(*nonneg_all(n), ge(psum_e(n), 1)), rhs6(M6, *n))
TAB6 = {'atom': 'M6', 'shape': 'iiiiii', 'keyfor': K6, 'arity': 3}


def mk_tab6(n):
    t = make_table(TAB6, two_orders(n), 0)
    t.params = (n,)
    t.remake = lambda mp: mk_tab6(n.subst(mp))
    return t


@contract(C1 + 'recursive_IEII')
def recursive_IEII(it, n1, n2, n3, tab):
    return folded(it, 'M6', (n1, n2, n3), 'iiiiii', K6, lambda: rec_rhs(it, ito_pairs, rhs6, tab, (n1, n2, n3), lambda i: (i[0] + 1,) + tuple(i[1:])))


def setup_rec(it):
    n = [I('n1'), I('n2'), I('n3')]
    return n + [mk_tab6(n[0] + n[1] + n[2])], [ge(x, 0) for x in n] + [ge(n[0] + n[1] + n[2], 1)]


Unit(C1 + 'recursive_IEII', setup_rec, opts={'ifmerge': True}, ranges={x: (0, 4) for x in ('n1', 'n2', 'n3')}, gen={'M6': keygen('iiiiii', (1,))}, tries=20)


# ---- central moments of orders 0..l
def cm_def(M, tail):
    def fn(n):
        def split(n, ns):
            f = M(*ns)
            return f.mapkey(lambda k: (k[0] - ns[0],) + tuple(k[1:]) + tuple(ns)).scale(multinom(n, ns))
        return over_splits(n, 3, split)
    return fn


def inv_cm(nq):
    def inv(k, args):
        b = len(k) - 3
        return [ge(k[1], 0), ge(k[b], 0), ge(k[b + 1], 0), ge(k[b + 2], 0), c_eq(mod2(k[b + 2]), ZERO)]
    return inv


cm1 = defined('cm1', 'i' * 9, cm_def(M6, 3), inv_cm(0))


@contract(C1 + 'cmoments_y_to')
def cmoments_y_to(it, l, show=False):
    if not valid(it.pc, ge(l, 0)):
        raise Undecided('order may be negative')
    return SymListV(toE(l) + 1, lambda it2, j: poly(cm1(j), K9))


Unit(C1 + 'cmoments_y_to', lambda it: ([I('l')], nonneg('l')), opts={'table': TAB6, 'list': {'atom': 'cm1', 'shape': 'i' * 9, 'keyfor': K9}, 'fold': True},
     ranges={'l': (0, 4)}, tries=5)


# ---- simplify: composite variables -> the original parameters
def expand_rs(f, a, b, kk, s, rest):
    """(sigma/2k)^k[a] (rho-sigma/2k)^k[b]: sum over powers of sigma/2k taken from the second factor;  rest(k, i, p) -> key"""
    def one(k):
        bi = symbase(fresh('i'), True)
        i = E.base(bi)
        p = k[a] + i
        c = FactE(k[b]) / FactE(i) / FactE(k[b] - i) * powE(E.const(-1), i) * powE(E.const(2), -p)
        return F((Term((), (bi,), (ge(i, 0), ge(k[b], i)), c, rest(k, i, p)),))
    return bind_over(f, one)


KS = {2: ('e^{-kt}', 't', 'k^{-}', 'v_0-theta', 'theta', 'sigma', 'rho'), 3: ('e^{-kt}', 't', 'k^{-}', 'v_0', 'theta', 'sigma', 'rho')}


def nonneg_keys(it, f, *pos):
    for t in f.ts:
        pc = list(it.pc) + list(t.dom) + inv_conds(t.pb)
        if feasible(pc) and not valid(pc, c_and(*[ge(t.key[j], 0) for j in pos])):
            raise Undecided('exponent may be negative')


def expand_minus(f, a, b):
    """(x_a - x_b)^k[a] -> powers of x_a (same position) and x_b"""
    def one(k):
        bi = symbase(fresh('i'), True)
        i = E.base(bi)
        key = list(k)
        key[a], key[b] = k[a] - i, k[b] + i
        return F((Term((), (bi,), (ge(i, 0), ge(k[a], i)), FactE(k[a]) / FactE(i) / FactE(k[a] - i) * powE(E.const(-1), i), tuple(key)),))
    return bind_over(f, one)


@contract(C1 + 'simplify')
def simplify(it, p, tp=ONE):
    f = it.getf(p)
    for v in (1, 2, 3):
        if it.branch(c_eq(tp, E.const(v))):
            break
    else:
        raise PyRaise('Exception')
    if v == 1:
        return poly(f.mapkey(lambda k: (-k[0],) + tuple(k[1:])), ('e^{-kt}',) + tuple(p.keyfor[1:]))
    nonneg_keys(it, f, 6, 7)
    g = expand_rs(f, 6, 7, 2, 5, lambda k, i, q: (-k[0], k[1], k[2] + q, k[3], k[4], k[5] + q, k[7] - i, k[8]))
    r = CONTRACTS['ajdmom.utils.simplify_rho'](it, poly(g, KS[2] + ('sqrt(1-rho^2)',)), E.const(7))
    if v == 3:
        nonneg_keys(it, r.f, 3)
        return poly(expand_minus(r.f, 3, 4), KS[3])
    return r


def gen9(r):
    return tuple(r.choice((0, 2, 4)) if i == 8 else r.randint(0, 3) if i in (1, 3, 6, 7) else r.randint(-2, 3) for i in range(9))


def dom9(k):
    return [ge(k[6], 0), ge(k[7], 0), ge(k[8], 0), ge(k[3], 0)]


Unit(C1 + 'simplify', lambda it: ([P('P', 'i' * 9, keyfor=K9, dom=dom9), I('tp')], []), gen={'P': gen9}, ranges={'tp': (0, 4)})
Unit(C1 + 'simplify', lambda it: ([P('P', 'i' * 9, keyfor=K9, dom=dom9)], []), gen={'P': gen9}, variant='default')


# ---- svvj: central moments given the jumps of the variance
V = 'ajdmom.mdl_svvj.'
CV, MV = V + 'cond2_cmom.', V + 'cond2_mom.'
TAIL = ('sigma/2k', 'rho-sigma/2k', 'sqrt(1-rho^2)')
K13, S13 = KFC + TAIL, SHC + 'iii'


def seq_inv(a, b, c, d):
    """four exponent tuples of a nested jump sum"""
    la, lb, lc, ld = [as_seq(x).length() for x in (a, b, c, d)]
    return [ge(la, 0), c_eq(lb, la), c_eq(ld, lc), ge(lc, 0), c_or(c_eq(lc, la - 1), c_and(c_eq(la, ZERO), c_eq(lc, ZERO)))]


def inv13(k, args):
    return [ge(k[1], 0)] + seq_inv(*k[6:10]) + [ge(k[10], 0), ge(k[11], 0), ge(k[12], 0), c_eq(mod2(k[12]), ZERO)]


cmv = defined('cm_svvj', S13, cm_def(MC, 3), inv13)


def need_pos(it, l):
    if not valid(it.pc, ge(l, 1)):
        raise Undecided('order may be 0 or negative')


@contract(CV + 'cmoments_y_to')
def cmoments_v(it, l, show=False):
    need_pos(it, l)
    return SymListV(toE(l) + 1, lambda it2, j: poly(cmv(j), K13))


Unit(CV + 'cmoments_y_to', lambda it: ([I('l')], [ge(I('l'), 1)]), opts={'table': TABC, 'list': {'atom': 'cm_svvj', 'shape': S13, 'keyfor': K13}, 'fold': True},
     ranges={'l': (1, 4)}, tries=5, keyshape=S13)


@contract(CV + 'cmoment_y')
def cmoment_v(it, l):
    need_pos(it, l)
    return poly(cmv(l), K13)


Unit(CV + 'cmoment_y', lambda it: ([I('l')], [ge(I('l'), 1)]), ranges={'l': (1, 4)}, tries=5, keyshape=S13)


K12 = ('e^{-kt}', 't', 'k^{-}', 'v0-theta', 'theta', 'sigma', 'l_{1:n}', 'o_{1:n}', 'p_{2:n}', 'q_{2:n}', 'rho', 'sqrt(1-rho^2)')


def simplify_v0(it, p):
    return poly(it.getf(p).mapkey(lambda k: (-k[0],) + tuple(k[1:])), ('e^{-kt}',) + tuple(p.keyfor[1:]))


@contract(CV + 'simplify')
def simplify_v(it, p, tp=ZERO):
    f = it.getf(p)
    if it.branch(c_eq(tp, ZERO)):
        return simplify_v0(it, p)
    nonneg_keys(it, f, 10, 11)
    g = expand_rs(f, 10, 11, 2, 5, lambda k, i, q: (-k[0], k[1], k[2] + q, k[3], k[4], k[5] + q, k[6], k[7], k[8], k[9], k[11] - i, k[12]))
    return CONTRACTS['ajdmom.utils.simplify_rho'](it, poly(g, K12), E.const(11))


def gen13(r):
    k = ito_cond.key_gen(r)
    return k + (r.randint(0, 3), r.randint(0, 3), r.choice((0, 2, 4)))


def dom13(k):
    return [ge(k[10], 0), ge(k[11], 0), ge(k[12], 0)] + ito_cond.inv(k)


Unit(CV + 'simplify', lambda it: ([P('P', S13, keyfor=K13, dom=dom13), I('tp')], []), gen={'P': gen13}, ranges={'tp': (0, 2)}, keyshape=None)
Unit(CV + 'simplify', lambda it: ([P('P', S13, keyfor=K13, dom=dom13)], []), gen={'P': gen13}, variant='default')

# ---- svvj: raw moments.  E[y | v0, jumps] = (mu-theta/2) t - (v0-theta) beta_t + e^{-kt} Z1/(2k) - Z0/(2k),  Zl = SUM e^{l k s_j} J_j
K15 = KFC[:3] + ('beta_t', 'mu-theta/2') + KFC[3:] + TAIL
S15 = 'i' * 8 + 'qqqqiii'


def rep(v, n):
    return SeqV((('r', toE(v), toE(n)),))


def mcomb(f, n, n1, n2, n3, n4, n5):
    """f times the n1..n4-th powers of the four parts of the mean, times the multinomial coefficient"""
    n, n1, n2, n3, n4 = toE(n), toE(n1), toE(n2), toE(n3), toE(n4)
    c = multinom(n, (n1, n2, n3, n4, n5)) * powE(E.const(-1), n2 + n4) * powE(E.const(2), -(n3 + n4))

    def key(k):
        l = as_seq(k[6]).concat(rep(1, n3)).concat(rep(0, n4))
        o = as_seq(k[7]).concat(rep(0, n3 + n4))
        return l, o

    def one(k):
        l, o = key(k)
        L = as_seq(k[6]).length()
        head = (k[0] - n3, k[1] + n1, k[2] + n3 + n4, n2, n1, k[3] + n2, k[4], k[5])
        tail = tuple(k[10:])

        def with_(cnt):
            return fmono(c, head + (l, o, as_seq(k[8]).concat(rep(0, cnt)), as_seq(k[9]).concat(rep(0, cnt))) + tail)
        m = n3 + n4
        r = with_(m).guard(ge(L, 1))
        r = r + with_(m - 1).guard(c_eq(L, ZERO), ge(m, 1))
        return r + with_(ZERO).guard(c_eq(L, ZERO), c_eq(m, ZERO))
    return bind_over(f, one)


@contract(MV + 'moment_comb')
def moment_comb(it, n, n1, n2, n3, n4, PY):
    need_nonneg(it, n1, n2, n3, n4)
    n5 = toE(n) - n1 - n2 - n3 - n4
    if not valid(it.pc, ge(n5, 0)):
        raise Undecided('orders exceed the total')
    kf = tuple(PY.keyfor)
    return poly(mcomb(it.getf(PY), n, n1, n2, n3, n4, n5), kf[:3] + ('beta_t', 'mu-theta/2') + kf[3:])


Unit(MV + 'moment_comb', lambda it: ([I('n')] + [I(x) for x in ('n1', 'n2', 'n3', 'n4')] + [P('P', S13, keyfor=K13, dom=dom13)],
                                     nonneg('n1', 'n2', 'n3', 'n4') + [ge(I('n'), I('n1') + I('n2') + I('n3') + I('n4'))]),
     gen={'P': gen13}, ranges={x: (0, 2) for x in ('n1', 'n2', 'n3', 'n4')} | {'n': (0, 5)}, keyshape=S15)


def ymv_(n):
    return over_splits(n, 5, lambda n, ns: mcomb(cmv(ns[4]), n, *ns))


def inv15(k, args):
    return [ge(k[1], 0)] + seq_inv(*k[8:12])


ymv = defined('ym_svvj', S15, ymv_, inv15)


@contract(MV + 'moments_y_to')
def moments_v(it, l):
    need_pos(it, l)
    return SymListV(toE(l) + 1, lambda it2, j: poly(ymv(j), K15))


Unit(MV + 'moments_y_to', lambda it: ([I('l')], [ge(I('l'), 1)]), opts={'list': {'atom': 'ym_svvj', 'shape': S15, 'keyfor': K15}},
     ranges={'l': (1, 3)}, tries=4, keyshape=S15)


@contract(MV + 'moment_y')
def moment_v(it, l):
    need_pos(it, l)
    return poly(ymv(l), K15)


Unit(MV + 'moment_y', lambda it: ([I('l')], [ge(I('l'), 1)]), ranges={'l': (1, 3)}, tries=4, keyshape=S15)
