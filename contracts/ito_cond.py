"""ito_cond_mom: the same recursion with jumps in the variance; keys carry the nested jump sums."""
from .base import *
from engine.tables import *
from .ito import rec_rhs, ito_pairs, nonneg_all, psum_e, two_orders, ddt, int_et_closed, const_args

M = 'ajdmom.ito_cond_mom.'
KZ = ('e^{kt}', 't', 'k^{-}', 'e^{k(s_i1 v...v s_in)}', '(s_i1 v...v s_in)')
KF = ('e^{kt}', 't', 'k^{-}', 'v0-theta', 'theta', 'sigma', 'l_{1:n}', 'o_{1:n}', 'p_{2:n}', 'q_{2:n}')
SH = 'iiiiiiqqqq'


# ---- INTEGRAL of e^{nks} s^m over [0,t] (no jumps) or [latest jump, t]
def fz_closed(n, m, z):
    """z = 0: no jump; 1: lower limit is the latest jump time s (exponents 3, 4)"""
    d = {}
    for (a, b, c), v in anti(n, m).items():
        d[(a, b, c, 0, 0)] = d.get((a, b, c, 0, 0), 0) + v
        k = (0, 0, c, a, b) if z else (0, 0, c, 0, 0) if b == 0 else None
        if k is not None:
            d[k] = d.get(k, 0) - v
    return {k: v for k, v in d.items() if v}


def anti(n, m):
    """an antiderivative of e^{nkt} t^m: {(exp, power, 1/k power): coefficient}"""
    if n == 0:
        return {(0, m + 1, 0): Fraction(1, m + 1)}
    if m == 0:
        return {(n, 0, 1): Fraction(1, n)}
    d = {(n, m, 1): Fraction(1, n)}
    for (a, b, c), v in anti(n, m - 1).items():
        d[(a, b, c + 1)] = d.get((a, b, c + 1), 0) - Fraction(m, n) * v
    return d


def def_fz(args):
    if not const_args(args):
        return None
    n, m, z = [int(a.cval()) for a in args]
    from .ito import f_of_dict
    return f_of_dict(fz_closed(n, m, z)) if m >= 0 else None


DEFS['int_fZ'] = def_fz
ATOM_REAL['int_fZ'] = lambda n, m, z: fz_closed(n, m, z)
ATOM_INV['int_fZ'] = lambda k: [ge(k[1], 0)]


@contract(M + 'int_et_fZ')
def int_et_fZ(it, n, m, N_sum):
    if it.branch(c_lt(m, ZERO)):
        raise PyRaise('ValueError')
    z = ZERO if it.branch(c_eq(N_sum, ZERO)) else ONE
    return atom_poly('int_fZ', (n, m, z), 'iiiii', KZ)


def goal_fz(unit, it, args, out):
    n, m, N = args
    if out.kind == 'raise':
        if not valid(it.pc, c_lt(m, ZERO)):
            raise Fail('raises for a non-negative power', model_of(it.pc + [ge(m, 0)]))
        return
    if feasible(it.pc + [c_lt(m, ZERO)]):
        raise Fail('returns a value for a negative power', model_of(it.pc + [c_lt(m, ZERO)]))
    f = out.value.f
    cmp_val(it, PolyV(FZERO, out.value.keyfor), PolyV(FZERO, KZ), 'variable names')
    chk_equal(it, ddt(f), fmono(ONE, (n, m, ZERO, ZERO, ZERO)), 'derivative of the integral')
    pc0 = it.pc
    for cond, zero in ((c_eq(N, ZERO), True), (c_not(c_eq(N, ZERO)), False)):
        it.pc = pc0 + [cond]
        try:
            if not feasible(it.pc):
                continue
            if zero:
                for t in f.ts:
                    pc = list(it.pc) + list(t.dom)
                    if feasible(pc) and not valid(pc, c_and(c_eq(t.key[3], ZERO), c_eq(t.key[4], ZERO), ge(t.key[1], 0))):
                        raise Fail('jump time without a jump', model_of(pc))
                low = F(Term(t.pb, t.ib, t.dom + (c_eq(t.key[1], ZERO),), t.coef, (t.key[2],)) for t in f.ts)
            else:
                low = f.mapkey(lambda k: (k[0] + k[3], k[1] + k[4], k[2]))
            chk_equal(it, low, FZERO, 'value at the lower limit')
        finally:
            it.pc = pc0


Unit(M + 'int_et_fZ', lambda it: ([I('n'), I('m'), I('N')], [ge(I('N'), 0)]), goal=goal_fz,
     ranges={'n': (-4, 5), 'm': (-2, 6), 'N': (0, 3)})


# ---- keys of the conditional moments
def inv(k):
    l6, l7, l8, l9 = [as_seq(k[i]).length() for i in (6, 7, 8, 9)]
    return [ge(k[1], 0), ge(l6, 0), c_eq(l7, l6), c_eq(l9, l8), ge(l8, 0), c_or(c_eq(l8, l6 - 1), c_and(c_eq(l6, ZERO), c_eq(l8, ZERO)))]


def inv_cond(k, args):
    return inv(k) + [c_eq(ModE(args[2], 2), ZERO)]       # odd powers of the independent integral vanish


inv_cond.with_args = True
ATOM_INV['M_cond'] = inv_cond


def key_gen(rnd):
    n = nesting(rnd, (0, 1, 1, 2, 3))
    r = lambda k: tuple(rnd.randint(-2, 3) for _ in range(k))
    return (rnd.randint(-2, 3), rnd.randint(0, 3)) + r(4) + (r(n), r(n), r(max(n - 1, 0)), r(max(n - 1, 0)))


E0 = SeqV(())


def one(e):
    return SeqV((('e', e),))


def last_add(s, e):
    if not s.p:
        return s            # (only under a false guard)
    return s.init().concat(one(s.last() + e))


def integrate(f, m, add):
    """INTEGRAL of e^{kms} f(s) ds from the latest jump (or 0) to t, times the fixed monomial `add`"""
    def ob(k):
        L = k[6].length()

        def body(q, tail):
            return (q[0], q[1], q[2] + k[2], k[3] + add[0], k[4] + add[1], k[5] + add[2]) + tail
        g0 = fatom('int_fZ', (m + k[0], k[1], ZERO), 'iiiii').mapkey(lambda q: body(q, (E0, E0, E0, E0))).guard(c_eq(L, ZERO))
        r = g0
        if L.is_const():
            l = int(L.cval())
        else:
            l = None
        if l is None or l == 1:
            g1 = fatom('int_fZ', (m + k[0], k[1], ONE), 'iiiii').mapkey(
                lambda q: body(q, (one(first(k[6]) + q[3]), one(first(k[7]) + q[4]), E0, E0))).guard(c_eq(L, ONE))
            r = r + g1
        if l is None or l >= 2:
            g2 = fatom('int_fZ', (m + k[0], k[1], ONE), 'iiiii').mapkey(
                lambda q: body(q, (k[6], k[7], last_add(k[8], q[3]), last_add(k[9], q[4])))).guard(ge(L, 2))
            r = r + g2
        return r
    return bind_over(f, ob)


def first(s):
    """the only element of a sequence of length one"""
    return s.last()


def times_jumps(f, m):
    """INTEGRAL of e^{kms} f(s) (SUM over jumps j up to s of e^{k s_j} J_j) ds"""
    def ob(k):
        L = k[6].length()

        def body(q, tail):
            return (q[0], q[1], q[2] + k[2], k[3], k[4], k[5]) + tail
        g = fatom('int_fZ', (m + k[0], k[1], ONE), 'iiiii')
        r = g.mapkey(lambda q: body(q, (one(1 + q[3]), one(q[4]), E0, E0))).guard(c_eq(L, ZERO))
        if not (L.is_const() and L.cval() == 0):
            r = r + g.refresh().mapkey(lambda q: body(q, (k[6].concat(one(ONE)), k[7].concat(one(ZERO)),
                                                          k[8].concat(one(q[3])), k[9].concat(one(q[4]))))).guard(ge(L, 1))
        return r
    return bind_over(f, ob)


def raise_neg(it, f):
    for t in f.ts:
        d = t.dom + (c_lt(t.key[1], ZERO),)
        if feasible(list(it.pc) + list(d) + inv_conds(t.pb)):
            it.frames[-1].raises.append((t.pb, t.ib, d, 'ValueError'))


@contract(M + 'int_e_poly')
def int_e_poly(it, coef, tp, m, p):
    f = it.getf(p)
    raise_neg(it, f)
    if it.branch(c_eq(tp, ONE)):
        add = (1, 0, 0)
    elif it.branch(c_eq(tp, E.const(2))):
        add = (0, 1, 0)
    else:
        add = (0, 0, 1)
    return poly(integrate(f, m, add).scale(coef), p.keyfor)


@contract(M + 'int_e_IEZ_poly')
def int_e_IEZ_poly(it, coef, m, p):
    f = it.getf(p)
    raise_neg(it, f)
    return poly(times_jumps(f, m).scale(coef), p.keyfor)


Unit(M + 'int_e_poly', lambda it: ([R('c'), I('tp'), I('m'), P('P', SH, dom=lambda k: inv(k))], []), gen={'P': key_gen},
     ranges={'tp': (1, 3), 'm': (-2, 3)}, keyshape=SH)
Unit(M + 'int_e_IEZ_poly', lambda it: ([R('c'), I('m'), P('P', SH, dom=lambda k: inv(k))], []), gen={'P': key_gen},
     ranges={'m': (-2, 3)}, keyshape=SH)


# ---- recursion
def MC(*idx):
    return fatom('M_cond', idx, SH)


def cond_rhs(get, n1, n2, n3):
    """Ito's formula with v(s) = e^{-ks}[(v0-theta) + theta e^{ks} + sigma eI(s) + SUM_{s_j<=s} e^{k s_j} J_j]"""
    r = FZERO
    n1, n2, n3 = toE(n1), toE(n2), toE(n3)
    for coef, guard, idx, m0, m1 in ito_pairs(n1, n2, n3):
        if any(g.op == 'false' for g in guard):
            continue
        w = E.const(m1)
        f = get(*idx)
        up = get(idx[0] + 1, idx[1], idx[2])
        a = integrate(f, w - 1, (1, 0, 0)) + integrate(f, w, (0, 1, 0)) + integrate(up, w - 1, (0, 0, 1)) + times_jumps(f, w - 1)
        r = r + a.scale(coef).guard(*guard)
    return r


def def_MC(args):
    if not const_args(args):
        return None
    n = [int(a.cval()) for a in args]
    if min(n) < 0:
        return FZERO
    if sum(n) == 0:
        return fmono(ONE, (ZERO,) * 6 + (E0,) * 4)
    return cond_rhs(MC, *[E.const(x) for x in n])


DEFS['M_cond'] = def_MC
ATOM_REAL['M_cond'] = real_poly(M + 'moment_IEII')
UNFOLD['M_cond'] = lambda *n: (c_and(*nonneg_all(n), ge(psum_e(n), 1)), cond_rhs(MC, *n))
TAB = {'atom': 'M_cond', 'shape': SH, 'keyfor': KF, 'arity': 3}


def mk_table(n):
    t = make_table(TAB, two_orders(n), 0)
    t.params = (n,)
    t.remake = lambda mp: mk_table(n.subst(mp))
    return t


def folded(it, name, idx, shape, kf, rhs):
    """the recursion over a table of true values gives the true value"""
    idx = tuple(toE(x) for x in idx)
    f = rhs()
    if it.opts.get('fold') and valid(it.pc, c_and(*nonneg_all(idx), ge(psum_e(idx), 1))):
        return atom_poly(name, idx, shape, kf)
    return poly(f, kf)


@contract(M + 'recursive_IEII')
def recursive_IEII(it, n1, n2, n3, tab):
    return folded(it, 'M_cond', (n1, n2, n3), SH, KF, lambda: rec_rhs(it, ito_pairs, cond_rhs, tab, (n1, n2, n3), lambda i: (i[0] + 1,) + tuple(i[1:])))


def setup_rec(it):
    n = [I('n1'), I('n2'), I('n3')]
    return n + [mk_table(n[0] + n[1] + n[2])], [ge(x, 0) for x in n] + [ge(n[0] + n[1] + n[2], 1)]


Unit(M + 'recursive_IEII', setup_rec, opts={'ifmerge': True}, ranges={x: (0, 4) for x in ('n1', 'n2', 'n3')}, gen={'M_cond': key_gen}, keyshape=SH, tries=20)


@contract(M + 'moment_IEII')
def moment_IEII(it, n1, n2, n3):
    if it.branch(c_lt(n1 + n2 + n3, ZERO)):
        raise PyRaise('ValueError')
    return atom_poly('M_cond', (n1, n2, n3), SH, KF)


Unit(M + 'moment_IEII', lambda it: ([I('n1'), I('n2'), I('n3')], nonneg_all([I('n1'), I('n2'), I('n3')])),
     opts={'table': TAB}, ranges={x: (0, 3) for x in ('n1', 'n2', 'n3')}, tries=12, keyshape=SH, cost=5)
