"""mdl_1fsv (Heston): moments, central moments, covariances of the return.

Return over an interval, given v = v_{n-1}, with b = (1 - e^{-kh})/k:
    y = [mu h - theta h/2 + theta b/2] - v b/2 + (sigma_v/2k) e^{-knh} eI + (rho - sigma_v/2k) I + sqrt(1-rho^2) I*
    y - E y = (theta - v) b/2 + (sigma_v/2k) e^{-knh} eI + (rho - sigma_v/2k) I + sqrt(1-rho^2) I*
    v_n = e^{-kh} v + (1 - e^{-kh}) theta + sigma_v e^{-knh} eI_n
Powers are expanded by the multinomial theorem, the joint moments of (eI, I, I*) given v are M_IEII (C05), those of v are V."""
from .base import *
from . import ito
from .utils_c import comb, dbfactorial

MOM, CM, COV = 'ajdmom.mdl_1fsv.mom.', 'ajdmom.mdl_1fsv.cmom.', 'ajdmom.mdl_1fsv.cov.'
KM = ('e^{-kh}', 'h', 'k^{-}', 'mu', 'theta', 'sigma_v', 'rho', 'sqrt(1-rho^2)')
KC = ('e^{-kh}', 'k^{-}', 'theta', 'sigma_v', 'rho', 'sqrt(1-rho^2)')
KVE = ('e^{-kh}', 'h', 'v_{n-1}', 'k^{-}', 'theta', 'sigma_v')
KMV = ('e^{-kh}', 'h', 'v_{n-1}', 'k^{-}', 'mu', 'theta', 'sigma_v', 'rho', 'sqrt(1-rho^2)')
KCV = ('e^{-kh}', 'h', 'v_{n-1}', 'k^{-}', 'theta', 'sigma_v', 'rho', 'sqrt(1-rho^2)')
KCM = ('e^{-kh}', 'h', 'k^{-}', 'theta', 'sigma_v', 'rho', 'sqrt(1-rho^2)')


def inv_M(k, args):
    return [ge(k[2], 0), ge(k[3], 0), c_eq(k[0], toE(args[0]))]


inv_M.with_args = True
ATOM_INV['M_IEII'] = inv_M
ATOM_INV['V'] = lambda k: [ge(k[0], 0), ge(k[1], 0)]

FIVE = ('n1', 'n2', 'n3', 'n4', 'n5')


def five(it):
    return [I(n) for n in FIVE], nonneg(*FIVE)




# ---- the non-random factors of the five pieces, to the powers n1..n5
H2 = Fraction(1, 2)


def pieces_m():
    """keys KM"""
    z = (0,) * 8

    def k(**d):
        return tuple(d.get(x, 0) for x in ('e', 'h', 'k', 'mu', 'th', 's', 'r', 'q'))
    return [[(1, k(h=1, mu=1)), (-H2, k(h=1, th=1)), (H2, k(k=1, th=1)), (-H2, k(e=1, k=1, th=1))],
            [(-H2, k(k=1)), (H2, k(e=1, k=1))],                                       # -b/2 (times v)
            [(H2, k(k=1, s=1))],
            [(1, k(r=1)), (-H2, k(k=1, s=1))],
            [(1, k(q=1))]]


def pieces_c():
    def k(**d):
        return tuple(d.get(x, 0) for x in ('e', 'k', 'th', 's', 'r', 'q'))
    # ((theta - v) b/2)^..: the power of theta is n1, that of v is n2, and b^(n1+n2) is expanded at once
    return [[(H2, k(k=1, s=1))], [(1, k(r=1)), (-H2, k(k=1, s=1))], [(1, k(q=1))]]


def bn_m_(n1, n2, n3, n4, n5):
    return prodf([mpow(p, n) for p, n in zip(pieces_m(), (n1, n2, n3, n4, n5))])


def bn_c_(n1, n2, n3, n4, n5):
    n1, n2 = toE(n1), toE(n2)
    b = mpow([(H2, (0, 1, 0, 0, 0, 0)), (-H2, (1, 1, 0, 0, 0, 0))], n1 + n2)
    sg = fmono(powE(E.const(-1), n2), (ZERO, ZERO, n1, ZERO, ZERO, ZERO))
    return prodf([b, sg] + [mpow(p, n) for p, n in zip(pieces_c(), (n3, n4, n5))])


bn_m = defined('bn_m', 'i' * 8, bn_m_)
bn_c = defined('bn_c', 'i' * 6, bn_c_)

for mod, fn, kf in ((MOM, bn_m, KM), (CM, bn_c, KC)):
    @contract(mod + 'b_n')
    def b_n(it, n1, n2, n3, n4, n5, fn=fn, kf=kf):
        need_nonneg(it, n1, n2, n3, n4, n5)
        return poly(fn(n1, n2, n3, n4, n5), kf)
    Unit(mod + 'b_n', five, ranges={x: (0, 3) for x in FIVE})


# ---- v^n2 E[(e^{-knh} eI)^n3 I^n4 I*^n5 | v]
def ve_(n2, n3, n4, n5):
    f = ito.MI(toE(n3), toE(n4), toE(n5))
    return f.mapkey(lambda k: (toE(n3) - k[1], k[2], toE(n2) + k[3], k[4], k[5], k[6]))


ve = defined('ve', 'iiiiii', ve_, lambda k, a: [ge(k[1], 0), ge(k[2], 0)])


@contract(CM + 've_IEII')
def ve_IEII(it, n2, n3, n4, n5):
    need_nonneg(it, n2, n3, n4, n5)
    return poly(ve(n2, n3, n4, n5), KVE)


Unit(CM + 've_IEII', lambda it: ([I(n) for n in FIVE[1:]], nonneg(*FIVE[1:])), ranges={x: (0, 3) for x in FIVE})


def combm(n, ns):
    n = toE(n)
    ns = [toE(x) for x in ns]
    F_, B_ = ve(*ns[1:]), bn_m(*ns)
    return fplus(embed(F_, [0, 1, 2, 3, -1, 4, 5, -1, -1]), embed(B_, [0, 1, -1, 2, 3, 4, 5, 6, 7])).scale(multinom(n, ns))


def combc(n, ns):
    n = toE(n)
    ns = [toE(x) for x in ns]
    return fplus(embed(ve(*ns[1:]), [0, 1, 2, 3, 4, 5, -1, -1]), embed(bn_c(*ns), [0, -1, -1, 1, 2, 3, 4, 5])).scale(multinom(n, ns))


for mod, fn, kf in ((MOM, combm, KMV), (CM, combc, KCV)):
    @contract(mod + 'moment_comb')
    def moment_comb(it, n, n1, n2, n3, n4, n5, fn=fn, kf=kf):
        need_nonneg(it, n1, n2, n3, n4, n5)
        if not valid(it.pc, c_eq(n, toE(n1) + n2 + n3 + n4 + n5)):
            raise Undecided('orders do not add up')
        return poly(fn(n, (n1, n2, n3, n4, n5)), kf)
    Unit(mod + 'moment_comb', lambda it: ([sum5(), *[I(n) for n in FIVE]], nonneg(*FIVE)), ranges={x: (0, 2) for x in FIVE})


def sum5():
    return I('n1') + I('n2') + I('n3') + I('n4') + I('n5')


# ---- v^m -> E[v^m] under the stationary law
def subv(f, pos, th, s, kk):
    def one(k):
        rest = list(k[:pos]) + list(k[pos + 1:])
        def add(q):
            r = list(rest)
            r[th] = r[th] + q[0]
            r[s] = r[s] + 2 * q[1]
            r[kk] = r[kk] + q[1]
            return tuple(r)
        return fatom('V', (k[pos],), 'ii').mapkey(add)
    return bind_over(f, one)


SUBV = {MOM: (KMV, KM, (2, 4, 5, 2)), CM: (KCV, KCM, (2, 3, 4, 2))}
for mod, (ki, ko, pos) in SUBV.items():
    @contract(mod + 'sub_v')
    def sub_v(it, p, ko=ko, pos=pos):
        f = it.getf(p)
        for t in f.ts:
            pc = list(it.pc) + list(t.dom) + inv_conds(t.pb)
            if feasible(pc) and not valid(pc, ge(t.key[2], 0)):
                raise Undecided('sub_v: power of v may be negative')
        return poly(subv(f, *pos), ko)
    Unit(mod + 'sub_v', (lambda n: lambda it: ([P('P', 'i' * n, dom=lambda k: [ge(k[2], 0)])], []))(len(ki)),
         gen={'P': (lambda n: lambda r: tuple(r.randint(0, 4) if i == 2 else r.randint(-2, 3) for i in range(n)))(len(ki))})


def ymom_(l):
    return subv(over_splits(l, 5, combm), *SUBV[MOM][2])


def ycmom_(l):
    return subv(over_splits(l, 5, combc), *SUBV[CM][2])


ymom = defined('ymom1', 'i' * 8, ymom_)
ycmom = defined('ycmom1', 'i' * 7, ycmom_)

for q, fn, kf in ((MOM + 'moment_y', ymom, KM), (CM + 'cmoment_y', ycmom, KCM)):
    @contract(q)
    def moment_y(it, l, fn=fn, kf=kf):
        need_nonneg(it, l)
        return need(poly(fn(l), kf))
    Unit(q, lambda it: ([I('l')], [ge(I('l'), 0)]), ranges={'l': (0, 3)})


# ---- covariance of y_n^l1 and y_{n+1}^l2
KX = ('e^{-knh}eI_n', 'e^{-kh}', 'v_{n-1}', 'theta', 'sigma_v')
KXV = ('e^{-knh}eI_n', 'e^{-kh}', 'h', 'v_{n-1}', 'k^{-}', 'theta', 'sigma_v')
VN = [(1, (0, 1, 1, 0, 0)), (1, (0, 0, 0, 1, 0)), (-1, (0, 1, 0, 1, 0)), (1, (1, 0, 0, 0, 1))]      # v_n


vn_pow = defined('vn_pow', 'iiiii', lambda l: mpow(VN, l), lambda k, a: [ge(x, 0) for x in k])


@contract(COV + 'exp_vn')
def exp_vn(it, l):
    need_nonneg(it, l)
    return poly(vn_pow(l), KX)


Unit(COV + 'exp_vn', lambda it: ([I('l')], [ge(I('l'), 0)]), ranges={'l': (0, 5)})


def vevn(n2, n3, n4, n5):
    """the next interval's joint moment, its initial variance v_n written in v_{n-1} and eI_n"""
    def one(k):
        return vn_pow(k[2]).mapkey(lambda q: (q[0], k[0] + q[1], k[1], q[2], k[3], k[4] + q[3], k[5] + q[4]))
    return bind_over(ve(n2, n3, n4, n5), one)


@contract(COV + 've_IEII_vn')
def ve_IEII_vn(it, n2, n3, n4, n5):
    need_nonneg(it, n2, n3, n4, n5)
    return poly(vevn(n2, n3, n4, n5), KXV)


Unit(COV + 've_IEII_vn', lambda it: ([I(n) for n in FIVE[1:]], nonneg(*FIVE[1:])), ranges={x: (0, 2) for x in FIVE})


def inner(l1, ms, f):
    """SUM over the terms of f: E[ v^(m2+..) (e^{-knh}eI)^(m3+..) I^m4 I*^m5 ] times the non-random factors of the split (m1..m5)"""
    ms = [toE(x) for x in ms]

    def one(k):
        return ve(ms[1] + k[3], ms[2] + k[0], ms[3], ms[4]).mapkey(
            lambda q: (k[1] + q[0], k[2] + q[1], q[2], k[4] + q[3], k[5] + q[4], k[6] + q[5]))
    f = bind_over(f, one)
    return fplus(embed(f, [0, 1, 2, 3, -1, 4, 5, -1, -1]), embed(bn_m(*ms), [0, 1, -1, 2, 3, 4, 5, 6, 7])).scale(multinom(l1, ms))


SIX = ('m1', 'm2', 'm3', 'm4', 'm5')


@contract(COV + 'moment_inner_comb')
def moment_inner_comb(it, l1, m1, m2, m3, m4, m5, p):
    need_nonneg(it, m1, m2, m3, m4, m5)
    if not valid(it.pc, c_eq(l1, toE(m1) + m2 + m3 + m4 + m5)):
        raise Undecided('orders do not add up')
    f = it.getf(p)
    for t in f.ts:
        pc = list(it.pc) + list(t.dom) + inv_conds(t.pb)
        if feasible(pc) and not valid(pc, c_and(ge(t.key[0], 0), ge(t.key[3], 0))):
            raise Undecided('moment_inner_comb: negative power')
    return poly(inner(l1, (m1, m2, m3, m4, m5), f), KMV)


Unit(COV + 'moment_inner_comb', lambda it: ([psum_e([I(n) for n in SIX])] + [I(n) for n in SIX]
                                            + [P('P', 'iiiiiii', keyfor=KXV, dom=lambda k: [ge(k[0], 0), ge(k[3], 0)])], nonneg(*SIX)),
     ranges={x: (0, 2) for x in SIX}, gen={'P': lambda r: tuple(r.randint(0, 2) if i in (0, 3) else r.randint(-2, 3) for i in range(7))})


def outer(l2, ns, l1):
    ns = [toE(x) for x in ns]
    f = over_splits(l1, 5, lambda l, ms: inner(l, ms, vevn(*ns[1:])))
    return fplus(f, embed(bn_m(*ns), [0, 1, -1, 2, 3, 4, 5, 6, 7])).scale(multinom(l2, ns))


@contract(COV + 'moment_outer_comb')
def moment_outer_comb(it, l2, n1, n2, n3, n4, n5, l1):
    need_nonneg(it, l1, n1, n2, n3, n4, n5)
    if not valid(it.pc, c_eq(l2, toE(n1) + n2 + n3 + n4 + n5)):
        raise Undecided('orders do not add up')
    return poly(outer(l2, (n1, n2, n3, n4, n5), l1), KMV)


Unit(COV + 'moment_outer_comb', lambda it: ([sum5(), *[I(n) for n in FIVE], I('l1')], nonneg('l1', *FIVE)),
     ranges={x: (0, 1) for x in FIVE + ('l1',)})


def yy_(l1, l2):
    return subv(over_splits(l2, 5, lambda l, ns: outer(l, ns, l1)), *SUBV[MOM][2])


yy = defined('yy1', 'i' * 8, yy_)


@contract(COV + 'moment_yy')
def moment_yy(it, l1, l2):
    need_nonneg(it, l1, l2)
    return need(poly(yy(l1, l2), KM))


def two_l(it):
    return [I('l1'), I('l2')], nonneg('l1', 'l2')


Unit(COV + 'moment_yy', two_l, ranges={'l1': (0, 2), 'l2': (0, 2)}, tries=8)


@contract(COV + 'cov_yy')
def cov_yy(it, l1, l2):
    need_nonneg(it, l1, l2)
    return need(poly(yy(l1, l2) - fplus(ymom(l1), ymom(l2)), KM))


Unit(COV + 'cov_yy', two_l, ranges={'l1': (0, 2), 'l2': (0, 2)}, tries=8)
