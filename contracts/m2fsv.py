"""mdl_2fsv: two independent square-root factors v1, v2; b_f = (1 - e^{-k_f h})/k_f, b_f' s below.

    y = [mu h + SUM_f (theta_f b_f/2 - theta_f h/2)] - v1 b1/2 - v2 b2/2
        + SUM_f [ (sigma_f/2k_f) e^{-k_f nh} eI_f - (sigma_f/2k_f) I_f ] + I*
    y - E y:  the first bracket is SUM_f theta_f b_f/2
Joint moments of (eI1, I1, eI2, I2, I*) given (v1, v2) are M_two (C06); those of v_f are V."""
from .base import *
from . import ito, itos
from .m1fsv import vn_pow, H2
from .itos import T1, up
from .utils_c import comb

MOM, CM, COV = 'ajdmom.mdl_2fsv.mom.', 'ajdmom.mdl_2fsv.cmom.', 'ajdmom.mdl_2fsv.cov.'
N7 = tuple(f'n{i}' for i in range(1, 8))
N8 = tuple(f'n{i}' for i in range(1, 9))
KBC = ('e^{-k1h}', 'k1^{-}', 'theta1', 'sigma_v1', 'e^{-k2h}', 'k2^{-}', 'theta2', 'sigma_v2')
KBM = KBC + ('h', 'mu')
T_, E_ = '(n_1m*k1+n_2m*k2)^{-i_m},...,(n_11*k1+n_21*k2)^{-i_1}', 'e^{-(n1*k1+n2*k2)h}'
KVC = (T_, E_, 'h', 'v_{1,n-1}', 'theta1', 'sigma_v1', 'v_{2,n-1}', 'theta2', 'sigma_v2')
KVM = (T_, E_, 'h', 'mu', 'v_{1,n-1}', 'theta1', 'sigma_v1', 'v_{2,n-1}', 'theta2', 'sigma_v2')
KOC = (T_, E_, 'h', 'theta1', 'sigma_v1', 'theta2', 'sigma_v2')
KOM = (T_, E_, 'h', 'mu', 'theta1', 'sigma_v1', 'theta2', 'sigma_v2')
SHC = ('T', 2) + ('i',) * 7
SHM = ('T', 2) + ('i',) * 8
SOC = ('T', 2) + ('i',) * 5
SOM = ('T', 2) + ('i',) * 6


def kplus(a, b):
    return tuple((x[0] + y[0], x[1] + y[1]) if isinstance(x, tuple) else x.mul(y) if isinstance(x, Bag) else x + y for x, y in zip(a, b))


def fplus(f, g):
    return fmul(f, g, kplus)


def bk(n, **d):
    names = ('e1', 'k1', 'th1', 's1', 'e2', 'k2', 'th2', 's2', 'h', 'mu')[:n]
    return tuple(d.get(x, 0) for x in names)


def pieces(n):
    """the pieces' non-random factors (the v_f of pieces 2, 3 and the integrals are not included)"""
    k = lambda **d: bk(n, **d)
    first = [(H2, k(k1=1, th1=1)), (-H2, k(e1=1, k1=1, th1=1)), (H2, k(k2=1, th2=1)), (-H2, k(e2=1, k2=1, th2=1))]
    if n == 10:
        first += [(-H2, k(h=1, th1=1)), (-H2, k(h=1, th2=1)), (1, k(h=1, mu=1))]
    return [first,
            [(-H2, k(k1=1)), (H2, k(e1=1, k1=1))], [(-H2, k(k2=1)), (H2, k(e2=1, k2=1))],
            [(H2, k(k1=1, s1=1))], [(-H2, k(k1=1, s1=1))], [(H2, k(k2=1, s2=1))], [(-H2, k(k2=1, s2=1))]]


def bn_(n):
    return lambda *ns: prodf([mpow(p, x) for p, x in zip(pieces(n), ns)])


bn2m = defined('bn2m', 'i' * 10, bn_(10))
bn2c = defined('bn2c', 'i' * 8, bn_(8))

for mod, fn, kf in ((MOM, bn2m, KBM), (CM, bn2c, KBC)):
    @contract(mod + 'b_n')
    def b_n(it, *ns, fn=fn, kf=kf):
        need_nonneg(it, *ns)
        return poly(fn(*ns), kf)
    Unit(mod + 'b_n', lambda it: ([I(n) for n in N7], nonneg(*N7)), ranges={x: (0, 2) for x in N7})


# ---- v1^n2 v2^n3 E[(e^{-k1 nh} eI1)^n4 I1^n5 (e^{-k2 nh} eI2)^n6 I2^n7 I*^n8 | v1, v2]
def inv_M2(k, args):
    r = [ge(x, 0) for x in k[3:]] + [c_eq(k[1][0], toE(args[0])), c_eq(k[1][1], toE(args[2]))]
    if isinstance(k[0], Bag) and k[0].at and not k[0].tr:
        r.append(ge(tlen(k[0]), 1))
    return r


inv_M2.with_args = True
ATOM_INV['M_two'] = inv_M2


def ve2_(n2, n3, *n):
    n = [toE(x) for x in n]
    f = itos.M2(*n)
    return f.mapkey(lambda k: (k[0], (n[0] - k[2][0], n[2] - k[2][1]), k[3], k[4] + n2, k[5], k[6], k[7] + n3, k[8], k[9]))


def inv_ve2(k, args):
    r = [ge(x, 0) for x in k[2:]]
    if isinstance(k[0], Bag) and k[0].at and not k[0].tr:
        r.append(ge(tlen(k[0]), 1))
    return r


ve2 = defined('ve2', SHC, ve2_, inv_ve2)


@contract(CM + 'vvee_IEI_IEII')
def vvee(it, *ns):
    need_nonneg(it, *ns)
    return poly(ve2(*ns), KVC)


Unit(CM + 'vvee_IEI_IEII', lambda it: ([I(n) for n in N8[1:]], nonneg(*N8[1:])), ranges={x: (0, 1) for x in N8}, keyshape=SHC, tries=10)


# ---- products
def kden(t, i1, i2):
    """times k1^-i1 k2^-i2"""
    return t.mul(T1((ONE, ZERO, i1))).mul(T1((ZERO, ONE, i2)))


def put_b(n):
    """a term of b_n placed among the variables KVM (n = 10) or KVC (n = 8)"""
    def mk(q):
        t, e = kden(Bag((), ()), q[1], q[5]), (q[0], q[4])
        if n == 10:
            return (t, e, q[8], q[9], ZERO, q[2], q[3], ZERO, q[6], q[7])
        return (t, e, ZERO, ZERO, q[2], q[3], ZERO, q[6], q[7])
    return mk


def ins_mu(f):
    return f.mapkey(lambda k: tuple(k[:3]) + (ZERO,) + tuple(k[3:]))


def comb2m(n, ns):
    ns = [toE(x) for x in ns]
    return fplus(ins_mu(ve2(*ns[1:])), bn2m(*ns[:7]).mapkey(put_b(10))).scale(multinom(n, ns))


def comb2c(n, ns):
    ns = [toE(x) for x in ns]
    return fplus(ve2(*ns[1:]), bn2c(*ns[:7]).mapkey(put_b(8))).scale(multinom(n, ns))


def total(ns):
    return psum_e([toE(x) for x in ns])


def need_total(it, n, ns):
    need_nonneg(it, *ns)
    if not valid(it.pc, c_eq(n, total(ns))):
        raise Undecided('orders do not add up')


for mod, fn, kf, sh in ((MOM, comb2m, KVM, SHM), (CM, comb2c, KVC, SHC)):
    @contract(mod + 'moment_comb')
    def moment_comb(it, n, *ns, fn=fn, kf=kf):
        need_total(it, toE(n), ns)
        return poly(fn(n, ns), kf)
    Unit(mod + 'moment_comb', lambda it: ([total([I(n) for n in N8])] + [I(n) for n in N8], nonneg(*N8)), ranges={x: (0, 1) for x in N8},
         keyshape=sh, tries=10)


# ---- v_f^m -> E[v_f^m]
def subv2(f, a, b):
    """a, b: positions of v1 and v2; each is followed by theta_f, sigma_f"""
    def one(k):
        def two(q):
            def add(r):
                k2 = list(k)
                k2[0] = kden(k2[0], q[1], r[1])
                k2[a + 1], k2[a + 2] = k2[a + 1] + q[0], k2[a + 2] + 2 * q[1]
                k2[b + 1], k2[b + 2] = k2[b + 1] + r[0], k2[b + 2] + 2 * r[1]
                return tuple(x for i, x in enumerate(k2) if i not in (a, b))
            return fatom('V', (k[b],), 'ii').mapkey(add)
        return bind_over(fatom('V', (k[a],), 'ii'), two)
    return bind_over(f, one)


for mod, ko, a, sh, so in ((MOM, KOM, 4, SHM, SOM), (CM, KOC, 3, SHC, SOC)):
    @contract(mod + 'sub_v')
    def sub_v(it, p, ko=ko, a=a):
        f = it.getf(p)
        for t in f.ts:
            pc = list(it.pc) + list(t.dom) + inv_conds(t.pb)
            if feasible(pc) and not valid(pc, c_and(ge(t.key[a], 0), ge(t.key[a + 3], 0))):
                raise Undecided('sub_v: power of v may be negative')
        return poly(subv2(f, a, a + 3), ko)
    Unit(mod + 'sub_v', (lambda sh, a: lambda it: ([P('P', sh, dom=lambda k: [ge(k[a], 0), ge(k[a + 3], 0), ge(tlen(k[0]), 1)])], []))(sh, a),
         gen={'P': (lambda sh, a: lambda r: tuple(abs(gen_comp(s, r)) if i in (a, a + 3) else gen_comp(s, r) for i, s in enumerate(sh)))(sh, a)},
         keyshape=so)

ymom2 = defined('ymom2', SOM, lambda l: subv2(over_splits(l, 8, comb2m), 4, 7))
ycmom2 = defined('ycmom2', SOC, lambda l: subv2(over_splits(l, 8, comb2c), 3, 6))

for q, fn, kf, sh in ((MOM + 'moment_y', ymom2, KOM, SOM), (CM + 'cmoment_y', ycmom2, KOC, SOC)):
    @contract(q)
    def moment_y(it, l, fn=fn, kf=kf):
        need_nonneg(it, l)
        return need(poly(fn(l), kf))
    Unit(q, lambda it: ([I('l')], [ge(I('l'), 0)]), ranges={'l': (0, 2)}, keyshape=sh, tries=6)


# ---- covariance of y_n^l1 and y_{n+1}^l2
KX2 = ('e^{-k1*nh}eI_{1,n}', 'e^{-k2*nh}eI_{2,n}') + KVC
SHX = ('i', 'i') + SHC


def ve2vn(*ns):
    def one(k):
        def two(q):
            def three(r):
                return (q[0], r[0], k[0], (k[1][0] + q[1], k[1][1] + r[1]), k[2], q[2], k[4] + q[3], k[5] + q[4], r[2], k[7] + r[3], k[8] + r[4])
            return vn_pow(k[6]).mapkey(three)
        return bind_over(vn_pow(k[3]), two)
    return bind_over(ve2(*ns), one)


@contract(COV + 'vvee_IEI_IEII_vnvn')
def vvee_vn(it, *ns):
    need_nonneg(it, *ns)
    return poly(ve2vn(*ns), KX2)


Unit(COV + 'vvee_IEI_IEII_vnvn', lambda it: ([I(n) for n in N8[1:]], nonneg(*N8[1:])), ranges={x: (0, 1) for x in N8}, keyshape=SHX, tries=8)


def inner2(l1, ms, f):
    ms = [toE(x) for x in ms]

    def one(k):
        g = ve2(ms[1] + k[5], ms[2] + k[8], ms[3] + k[0], ms[4], ms[5] + k[1], ms[6], ms[7])
        return g.mapkey(lambda q: (k[2].mul(q[0]), (k[3][0] + q[1][0], k[3][1] + q[1][1]), k[4] + q[2], ZERO, q[3], k[6] + q[4], k[7] + q[5],
                                   q[6], k[9] + q[7], k[10] + q[8]))
    return fplus(bind_over(f, one), bn2m(*ms[:7]).mapkey(put_b(10))).scale(multinom(l1, ms))


M8 = tuple(f'm{i}' for i in range(1, 9))


def dom_x(k):
    return [ge(k[0], 0), ge(k[1], 0), ge(k[5], 0), ge(k[8], 0), ge(tlen(k[2]), 1)]


@contract(COV + 'moment_inner_comb')
def moment_inner_comb(it, l1, *a):
    ms, p = a[:8], a[8]
    need_total(it, toE(l1), ms)
    f = it.getf(p)
    for t in f.ts:
        pc = list(it.pc) + list(t.dom) + inv_conds(t.pb)
        if feasible(pc) and not valid(pc, c_and(*[ge(t.key[i], 0) for i in (0, 1, 5, 8)])):
            raise Undecided('moment_inner_comb: negative power')
    return poly(inner2(l1, ms, f), KVM)


Unit(COV + 'moment_inner_comb', lambda it: ([total([I(n) for n in M8])] + [I(n) for n in M8] + [P('P', SHX, keyfor=KX2, dom=dom_x)], nonneg(*M8)),
     ranges={x: (0, 1) for x in M8}, gen={'P': lambda r: tuple(r.randint(0, 1) if i in (0, 1, 5, 8) else gen_comp(s, r) for i, s in enumerate(SHX))},
     keyshape=SHM, tries=8)


def outer2(l2, ns, l1):
    ns = [toE(x) for x in ns]
    f = over_splits(l1, 8, lambda l, ms: inner2(l, ms, ve2vn(*ns[1:])))
    return fplus(f, bn2m(*ns[:7]).mapkey(put_b(10))).scale(multinom(l2, ns))


@contract(COV + 'moment_outer_comb')
def moment_outer_comb(it, l2, *a):
    ns, l1 = a[:8], a[8]
    need_nonneg(it, l1)
    need_total(it, toE(l2), ns)
    return poly(outer2(l2, ns, l1), KVM)


Unit(COV + 'moment_outer_comb', lambda it: ([total([I(n) for n in N8])] + [I(n) for n in N8] + [I('l1')], nonneg('l1', *N8)),
     ranges={x: (0, 1) for x in N8 + ('l1',)}, keyshape=SHM, tries=4)

yy2 = defined('yy2', SOM, lambda l1, l2: subv2(over_splits(l2, 8, lambda l, ns: outer2(l, ns, l1)), 4, 7))


@contract(COV + 'moment_yy')
def moment_yy(it, l1, l2):
    need_nonneg(it, l1, l2)
    return need(poly(yy2(l1, l2), KOM))


def two_l(it):
    return [I('l1'), I('l2')], nonneg('l1', 'l2')


Unit(COV + 'moment_yy', two_l, ranges={'l1': (0, 1), 'l2': (0, 1)}, keyshape=SOM, tries=4)


@contract(COV + 'cov_yy')
def cov_yy(it, l1, l2):
    need_nonneg(it, l1, l2)
    return need(poly(yy2(l1, l2) - fplus(ymom2(l1), ymom2(l2)), KOM))


Unit(COV + 'cov_yy', two_l, ranges={'l1': (0, 1), 'l2': (0, 1)}, keyshape=SOM, tries=4)
