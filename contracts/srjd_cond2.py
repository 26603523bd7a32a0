"""mdl_srjd.cond2_mom, cond2_cmom: the square-root jump diffusion given v0 and the jumps of the path.

A key (v0, k^-, theta, sigma, e^{kt}, l, o) stands for the monomial times the nested sum over the jumps
SUM_{i1..in} PROD e^{l_j k s_ij} J_ij PROD e^{o_j k (s_i1 v .. v s_ij)}.  Ito's formula with d<IE> = e^{2ks} v(s) ds and
v(s) = e^{-ks} [(v0 - theta) + theta e^{ks} + sigma IE_s + SUM_{s_j <= s} e^{k s_j} J_j]  gives, for m >= 2,
E[IE^m] = m(m-1)/2 INT_0^t e^{ks} [(v0 - theta) M_{m-2} + theta e^{ks} M_{m-2} + sigma M_{m-1} + SUM_j M_{m-2}] ds."""
from .base import *
from engine.tables import *
from .srjd_cond import remade

M, C = 'ajdmom.mdl_srjd.cond2_mom.', 'ajdmom.mdl_srjd.cond2_cmom.'
KF = ('v_0', 'k^{-}', 'theta', 'sigma', 'e^{kt}', 'l_{1:n}', 'o_{2:n}')
SH = 'iiiiiqq'
E0 = SeqV(())


def one(e):
    return SeqV((('e', toE(e)),))


def rep(e, n):
    n = toE(n)
    if n.is_const():
        return SeqV((('e', toE(e)),) * max(0, int(n.cval())))
    return SeqV((('r', toE(e), n),))


def inv(k):
    l5, l6 = as_seq(k[5]).length(), as_seq(k[6]).length()
    return [ge(k[4], 0), ge(l5, 0), ge(l6, 0), c_or(c_eq(l6, l5 - 1), c_and(c_eq(l5, ZERO), c_eq(l6, ZERO)))]


def key_gen(rnd):
    n = nesting(rnd, (0, 1, 1, 2, 3))
    r = lambda k: tuple(rnd.randint(-2, 3) for _ in range(k))
    return r(4) + (rnd.randint(0, 3),) + (r(n), r(max(n - 1, 0)))


def last_add(s, e):
    return s.init().concat(one(s.last() + e)) if s.p else s


def integrate(f, i):
    """INT e^{iks} f(s) ds from the latest jump (or 0) to t"""
    def ob(k):
        n = k[4] + i
        L = as_seq(k[5]).length()
        c = ONE / n
        h = (k[0], k[1] + 1, k[2], k[3])
        r = fmono(c, h + (n, k[5], k[6])) - fmono(c, h + (ZERO, k[5], k[6])).guard(c_eq(L, ZERO))
        l = int(L.cval()) if L.is_const() else None
        if l in (None, 1):
            r = r - fmono(c, h + (ZERO, one(as_seq(k[5]).last() + n), k[6])).guard(c_eq(L, ONE))
        if l is None or l >= 2:
            r = r - fmono(c, h + (ZERO, k[5], last_add(as_seq(k[6]), n))).guard(ge(L, 2))
        return r
    return bind_over(f, ob)


def with_jumps(f):
    """f(s) SUM_{s_j <= s} e^{k s_j} J_j"""
    def ob(k):
        L = as_seq(k[5]).length()
        r = fmono(ONE, k[:5] + (one(ONE), E0)).guard(c_eq(L, ZERO))
        if not (L.is_const() and L.cval() == 0):
            r = r + fmono(ONE, k[:5] + (as_seq(k[5]).concat(one(ONE)), as_seq(k[6]).concat(one(ZERO)))).guard(ge(L, 1))
        return r
    return bind_over(f, ob)


def add7(f, *a):
    return f.mapkey(lambda k: tuple(x + y for x, y in zip(k[:5], a)) + tuple(k[5:]))


def rhs(get, m):
    m = toE(m)
    f, g = get(m - 2), get(m - 1)
    a = integrate(f, 1)
    r = add7(a, 1, 0, 0, 0, 0) - add7(a, 0, 0, 1, 0, 0) + add7(integrate(f, 2), 0, 0, 1, 0, 0) \
        + add7(integrate(g, 1), 0, 0, 0, 1, 0) + integrate(with_jumps(f), 1)
    return r.scale(m * (m - 1) / 2)


def MI(m):
    return fatom('M_IEc', (toE(m),), SH)


def df(args):
    if not const_all(args):
        return None
    m = int(args[0].cval())
    if m < 0 or m == 1:
        return FZERO
    return fmono(ONE, (ZERO,) * 5 + (E0, E0)) if m == 0 else rhs(MI, E.const(m))


DEFS['M_IEc'] = df
UNFOLD['M_IEc'] = lambda m: (ge(m, 2), rhs(MI, m))
ATOM_REAL['M_IEc'] = real_poly(M + 'moment_IE')
ATOM_INV['M_IEc'] = inv


def P7(name, dom=inv):
    return P(name, SH, keyfor=KF, dom=dom)


@contract(M + 'int_e_poly')
def int_e_poly(it, i, p):
    f = it.getf(p)
    for t in f.ts:
        if feasible(list(it.pc) + list(t.dom) + inv_conds(t.pb) + [c_eq(t.key[4] + i, ZERO)]):
            raise Undecided('exponent may be zero')
    return poly(integrate(f, toE(i)), KF)


Unit(M + 'int_e_poly', lambda it: ([I('i'), P7('P')], [ge(I('i'), 1)]), gen={'P': key_gen}, ranges={'i': (1, 4)}, keyshape=SH)


@contract(M + 'coef_poly')
def coef_poly(it, c, p, tp):
    f = it.getf(p).scale(toE(c))
    for v in (1, 2, 3, 4):
        if it.branch(c_eq(tp, E.const(v))):
            break
    else:
        v = 0
    r = {0: lambda: FZERO, 1: lambda: add7(f, 1, 0, 0, 0, 0) - add7(f, 0, 0, 1, 0, 0), 2: lambda: add7(f, 0, 0, 1, 0, 0), 3: lambda: f,
         4: lambda: add7(f, 0, 0, 0, 1, 0)}[v]()
    return poly(r, KF)


Unit(M + 'coef_poly', lambda it: ([R('c'), P7('P'), I('tp')], []), gen={'P': key_gen}, ranges={'tp': (0, 5)}, keyshape=SH)

TAB = {'atom': 'M_IEc', 'shape': SH, 'keyfor': KF, 'arity': 1, 'scalar': True}


def val(it, tab, m):
    t = as_table(it, tab)
    m = toE(m)
    if not valid(it.pc, t.region((m,))):
        raise Undecided(f'order {m!r} may be missing from the table')
    return t.value(it, (m,)).f


@contract(M + 'int_e_IE')
def int_e_IE(it, i, m, tab):
    if not valid(it.pc, ge(i, 1)):
        raise Undecided('power may be zero')
    return poly(integrate(val(it, tab, m), toE(i)), KF)


@contract(M + 'int_e_IEZ_IE')
def int_e_IEZ_IE(it, m, tab):
    return poly(integrate(with_jumps(val(it, tab, m)), ONE), KF)


@contract(M + 'recursive_IE')
def recursive_IE(it, m, tab):
    return poly(rhs(lambda n: val(it, tab, n), m), KF)


def at_m(it):
    m = I('m')
    return m, remade(TAB, lambda m: lambda idx: c_eq(idx[0], m), m)


Unit(M + 'int_e_IE', lambda it: ([I('i'), *at_m(it)], nonneg('m') + [ge(I('i'), 1)]), ranges={'i': (1, 3), 'm': (0, 4)}, gen={'M_IEc': key_gen}, keyshape=SH)
Unit(M + 'int_e_IEZ_IE', lambda it: ([*at_m(it)], nonneg('m')), ranges={'m': (0, 4)}, gen={'M_IEc': key_gen}, keyshape=SH)
Unit(M + 'recursive_IE', lambda it: ([I('m'), remade(TAB, lambda m: lambda idx: c_and(c_le(m - 2, idx[0]), c_le(idx[0], m - 1)), I('m'))], [ge(I('m'), 3)]),
     ranges={'m': (3, 7)}, gen={'M_IEc': key_gen}, keyshape=SH)


@contract(M + 'moment_IE')
def moment_IE(it, m):
    if it.branch(c_lt(m, ZERO)):
        raise PyRaise('KeyError')
    return poly(MI(m), KF)


Unit(M + 'moment_IE', lambda it: ([I('m')], []), opts={'table': [TAB]}, ranges={'m': (-1, 6)}, tries=10, keyshape=SH)


# ---- the process
def mv_(m):
    """e^{-mkt} ((v0 - theta) + theta e^{kt} + sigma IE + SUM_j e^{k s_j} J_j)^m"""
    m = toE(m)

    def split(n, s):
        a, b, c, d, e = s            # v0, -theta, theta e^{kt}, IE, jumps

        def ob(k):
            L = as_seq(k[5]).length()
            h = (k[0] + a, k[1], k[2] + b + c, k[3] + d, k[4] + c - m)
            l = as_seq(k[5]).concat(rep(ONE, e))
            r = fmono(ONE, h + (k[5], k[6])).guard(c_eq(e, ZERO))
            if not (e.is_const() and e.cval() == 0):
                if not (L.is_const() and L.cval() != 0):
                    r = r + fmono(ONE, h + (rep(ONE, e), rep(ZERO, e - 1))).guard(c_eq(L, ZERO), ge(e, 1))
                if not (L.is_const() and L.cval() == 0):
                    r = r + fmono(ONE, h + (l, as_seq(k[6]).concat(rep(ZERO, e)))).guard(ge(L, 1), ge(e, 1))
            return r
        return bind_over(MI(d), ob).scale(multinom(n, s) * powE(-ONE, b))
    return over_splits(m, 5, split)


mv = defined('V_srjd2', SH, mv_)


@contract(M + 'moment_v')
def moment_v(it, m):
    need_nonneg(it, m)
    return need(poly(mv(m), KF))


Unit(M + 'moment_v', lambda it: ([I('m')], nonneg('m')), ranges={'m': (0, 4)}, tries=8, keyshape=SH)


@contract(C + 'cmoment_v')
def cmoment_v(it, m):
    if it.branch(c_lt(m, ZERO)):
        raise PyRaise('KeyError')
    return poly(add7(MI(m), 0, 0, 0, m, -m), KF)


Unit(C + 'cmoment_v', lambda it: ([I('m')], []), ranges={'m': (-1, 6)}, tries=10, keyshape=SH)
