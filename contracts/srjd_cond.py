"""mdl_srjd.cond_ie_iez_mom / cond_ie_iez_cmom: joint moments of IE = INT_0^t e^{ks} sqrt(v) dw and IEZ = INT_0^t e^{ks} dz, given v0.

Ito's formula with d<IE> = e^{2ks} v(s) ds,  v(s) = e^{-ks}(v0-theta) + theta + e^{-ks}(sigma IE_s + IEZ_s), and the increment of IEZ after s
independent of the past:   for n1 >= 2
  E[IE^n1 IEZ^n2] = C(n1,2) SUM_i C(n2,i) INT_0^t E[IEZ_{s,t}^{n2-i}] e^{2ks} E[v(s) IE_s^{n1-2} IEZ_s^i] ds
The central version uses IEZ minus its mean and E[v] in the place of theta (its mean part is in E[v])."""
from .base import *
from . import cpp_mom, srjd_iez
from .srjd_iez import iez, ciez, iez_, ciez_

SH = 'i' * 7


def conv_f(f):
    """(e^{kt}, e^{ks}, k^-, lmbd, mu_v) at s = 0"""
    return f.mapkey(lambda k: (k[0], k[2], ZERO, ZERO, ZERO, k[3], k[4]))


TP = {1: (0, 0, 1, 0, 0, 0, 0), 2: (0, 0, 0, 1, 0, 0, 0), 3: (0, 0, 0, 0, 1, 0, 0), 4: (ZERO,) * 7}


def int_f(f, m, add):
    """INT_0^t e^{m k s} f(s) ds times a monomial: k0 is the power of e^{ks}"""
    def one(k):
        n = k[0] + m
        c = ONE / n
        a = tuple(x + y for x, y in zip((n, k[1] + 1) + tuple(k[2:]), add))
        return fmono(c, a) - fmono(c, (ZERO,) + a[1:])
    return bind_over(f, one)


def kmul(k, f):
    """a term of E[IEZ_{s,t}^m] times a function of t: e^{ks} is already under the integral"""
    return f.mapkey(lambda q: (k[0] + q[0], k[2] + q[1], q[2], q[3], q[4], k[3] + q[5], k[4] + q[6]))


def rhs(get, z, n1, n2):
    n1, n2 = toE(n1), toE(n2)

    def part(i):
        def one(k):
            a = k[1]
            r = int_f(get(n1 - 2, i), 1 + a, TP[1]) + int_f(get(n1 - 2, i), 2 + a, TP[2]) + int_f(get(n1 - 1, i), 1 + a, TP[3]) \
                + int_f(get(n1 - 2, i + 1), 1 + a, TP[4])
            return kmul(k, r)
        return bind_over(z(n2 - i), one).scale(binom(n2, i))
    half = n1 * (n1 - 1) / 2
    if n2.is_const():
        return psum(*[part(E.const(j)) for j in range(int(n2.cval()) + 1)]).scale(half)
    b = symbase(fresh('i'), True)
    i = E.base(b)
    return F(Term(t.pb, (b,) + t.ib, (c_le(ZERO, i), c_le(i, n2)) + t.dom, t.coef, t.key) for t in part(i).scale(half).ts)


def mk(M, at, z, zdef, zfn, joint, kf):
    def MX(*i):
        return fatom(at, tuple(toE(x) for x in i), SH)

    def df(args):
        if not const_all(args):
            return None
        n1, n2 = [int(a.cval()) for a in args]
        if n1 < 0 or n2 < 0:
            return FZERO
        if n1 == 0:
            return conv_f(zdef(E.const(n2)))
        return FZERO if n1 == 1 else rhs(MX, zdef, E.const(n1), E.const(n2))
    DEFS[at] = df
    UNFOLD[at] = lambda n1, n2: [(c_and(ge(n1, 2), ge(n2, 0)), rhs(MX, z, n1, n2)), (c_and(c_eq(n1, ZERO), ge(n2, 0)), conv_f(z(n2))),
                                 (c_and(c_eq(n1, ONE), ge(n2, 0)), FZERO)]
    ATOM_REAL[at] = real_poly(M + joint)
    facts(at, (0,))
    U.NONNEG_AT[at + '_table'] = (0,)

    MEASURES[M + 'moment_ie'] = lambda n: [(c_and(), 3 * toE(n))]
    MEASURES[M + 'recursive_ie_iez'] = lambda n1, n2, *_: [(c_and(), 3 * (n1 + n2) + 1)]
    MEASURES[M + joint] = lambda n1, n2: [(ge(n1 + n2, 3), 3 * (n1 + n2) + 2), (c_le(n1 + n2, 2), E.const(8))]

    @contract(M + 'iez_to_ie_iez')
    def iez_to_ie_iez(it, p):
        return poly(conv_f(it.getf(p)), kf)
    Unit(M + 'iez_to_ie_iez', lambda it: ([P('P', 'iiiii', keyfor=srjd_iez.KZ)], []), keyshape=SH)

    @contract(M + 'int_e_poly')
    def int_e_poly(it, c, tp, m, p):
        for v in (1, 2, 3):
            if it.branch(c_eq(tp, E.const(v))):
                break
        else:
            v = 4
        f = it.getf(p)
        for t in f.ts:
            bad = c_eq(t.key[0] + m, ZERO)
            if feasible(list(it.pc) + list(t.dom) + inv_conds(t.pb) + [bad]):
                it.frames[-1].raises.append((t.pb, t.ib, t.dom + (bad,), 'ValueError'))
                f = f.guard(c_not(bad))
        return poly(int_f(f, toE(m), TP[v]).scale(toE(c)), kf)
    Unit(M + 'int_e_poly', lambda it: ([R('c'), I('tp'), I('m'), P('P', SH, keyfor=kf)], []), ranges={'tp': (1, 4), 'm': (-2, 3)})

    IE = {'atom': at, 'shape': SH, 'keyfor': kf, 'arity': 1, 'scalar': True, 'args': lambda n: (n, ZERO)}
    IZ = {'atom': at, 'shape': SH, 'keyfor': kf, 'arity': 2}

    def val(it, tab, idx):
        t = as_table(it, tab)
        if not valid(it.pc, t.region(idx)):
            raise Undecided(f'order {idx!r} may be missing from the table')
        return t.value(it, idx).f

    @contract(M + 'recursive_ie')
    def recursive_ie(it, n, ie, iez_):
        if not it.branch(ge(n, 2)):
            return poly(FZERO, kf)

        def get(i, j):
            if toE(j).is_const() and toE(j).cval() == 0:
                return val(it, ie, (toE(i),))
            return val(it, iez_, (toE(i), toE(j)))
        return poly(rhs(get, z, n, ZERO), kf)

    def setup_ie(it):
        n = I('n')
        t1 = remade(IE, lambda n: lambda idx: c_and(ge(n, 2), c_le(n - 2, idx[0]), c_le(idx[0], n - 1)), n)
        t2 = remade(IZ, lambda n: lambda idx: c_and(ge(n, 2), c_eq(idx[0], n - 2), c_eq(idx[1], ONE)), n)
        return [n, t1, t2], nonneg('n')
    Unit(M + 'recursive_ie', setup_ie, ranges={'n': (0, 6)}, gen={at: gen7})

    @contract(M + 'moment_ie')
    def moment_ie(it, n):
        if it.branch(c_lt(n, ZERO)):
            raise PyRaise('ValueError')
        return poly(MX(n, 0), kf)
    Unit(M + 'moment_ie', lambda it: ([I('n')], []), opts={'table': [IE, IZ]}, ranges={'n': (-1, 5)}, tries=10)

    @contract(M + 'key_times_poly')
    def key_times_poly(it, k, p):
        return poly(kmul(k, it.getf(p)), kf)
    Unit(M + 'key_times_poly', lambda it: ([tuple(I(f'k{i}') for i in range(5)), P('P', SH, keyfor=kf)], []))

    @contract(M + 'recursive_ie_iez')
    def recursive_ie_iez(it, n1, n2, tab):
        if it.branch(c_eq(n1, ZERO)):
            return poly(conv_f(z(n2)), kf)
        if it.branch(c_eq(n1, ONE)):
            return poly(FZERO, kf)
        if it.branch(c_eq(n2, ZERO)):
            return poly(MX(n1, 0), kf)
        t = as_table(it, tab)
        i = Sym(fresh('i'), True)
        saved = it.pc
        it.pc = list(it.pc) + [ge(i, 0), c_le(i, n2)]
        try:
            for q in ((n1 - 2, i), (n1 - 1, i), (n1 - 2, i + 1)):
                if not valid(it.pc, t.region(tuple(toE(x) for x in q))):
                    raise Undecided(f'order {q!r} may be missing from the table')
        finally:
            it.pc = saved
        return poly(rhs(lambda *q: t.value(it, tuple(toE(x) for x in q)).f, z, n1, n2), kf)

    def setup_rec(it):
        n1, n2 = I('n1'), I('n2')
        t = remade(dict(IZ, atom=at + '_table'), lambda n1, n2: lambda idx: c_and(ge(idx[0], 0), ge(idx[1], 0), c_le(idx[0] + idx[1], n1 + n2 - 1)), n1, n2)
        return [n1, n2, t], nonneg('n1', 'n2')
    Unit(M + 'recursive_ie_iez', setup_rec, ranges={'n1': (0, 4), 'n2': (0, 3)}, gen={at + '_table': gen7})

    @contract(M + joint)
    def moment_ie_iez(it, n1, n2):
        if it.branch(c_not(c_and(ge(n1, 0), ge(n2, 0)))):
            raise PyRaise('ValueError')
        return poly(MX(n1, n2), kf)
    Unit(M + joint, lambda it: ([I('n1'), I('n2')], []), opts={'table': [IZ]}, ranges={'n1': (-1, 3), 'n2': (-1, 3)}, tries=12)
    return MX


def gen7(rnd):
    return (rnd.randint(0, 3),) + tuple(rnd.randint(0, 3) for _ in range(6))


def remade(spec, region, *params):
    t = make_table(spec, region(*params), 0)
    t.params = params
    t.remake = lambda mp: remade(spec, region, *[p.subst(mp) for p in params])
    return t


from engine.tables import *
from .srjd_iez import KZ
KM = ('e^{kt}', 'k^{-}', 'v0-theta', 'theta', 'sigma', 'lmbd', 'mu_v')
KC = ('e^{kt}', 'k^{-}', 'v0-E[v]', 'E[v]', 'sigma', 'lmbd', 'mu_v')
Q, QC = 'ajdmom.mdl_srjd.cond_ie_iez_mom.', 'ajdmom.mdl_srjd.cond_ie_iez_cmom.'
MIE = mk(Q, 'M_IEIEZ', iez, iez_, 'moment_IEZ', 'moment_ie_iez', KM)
MIC = mk(QC, 'M_cIEIEZ', ciez, ciez_, 'cmoment_IEZ', 'cmoment_ie_iez', KC)
