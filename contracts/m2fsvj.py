"""mdl_2fsvj: the two-factor return plus an independent compound Poisson sum of normal jumps."""
from .base import *
from . import m2fsv, cpp_mom
from .m2fsv import KOM, KOC, SOM, SOC, ymom2, ycmom2, yy2, two_l, fplus
from .cpp_mom import mcpp_f, cmcpp_f
from .m1fsvj import KJ

MOM, CM, COV = 'ajdmom.mdl_2fsvj.mom.', 'ajdmom.mdl_2fsvj.cmom.', 'ajdmom.mdl_2fsvj.cov.'
KMJ, KCJ = KOM + KJ, KOC + KJ
SMJ, SCJ = SOM + ('i',) * 3, SOC + ('i',) * 3


def jumps(n, f):
    """jump keys (i, mu, sigma) behind n two-factor variables (T, (e1, e2), h, ..): (lambda h)^i"""
    return f.mapkey(lambda q: (Bag((), ()), (ZERO, ZERO), q[0]) + (ZERO,) * (n - 3) + (q[0], q[1], q[2]))


def behind(f):
    return f.mapkey(lambda k: tuple(k) + (ZERO, ZERO, ZERO))


def conv(l, f, g, n):
    """SUM_i C(l, i) f(i) g(l - i)"""
    def one(l, s):
        i, j = s
        return fplus(behind(f(i)), jumps(n, g(j))).scale(binom(l, i))
    return over_splits(l, 2, one)


ymom2j = defined('ymom2j', SMJ, lambda l: conv(l, ymom2, mcpp_f, 8))
ycmom2j = defined('ycmom2j', SCJ, lambda l: conv(l, ycmom2, cmcpp_f, 7))

for q, fn, kf, sh in ((MOM + 'moment_y', ymom2j, KMJ, SMJ), (CM + 'cmoment_y', ycmom2j, KCJ, SCJ)):
    @contract(q)
    def moment_y(it, l, fn=fn, kf=kf):
        need_nonneg(it, l)
        return need(poly(fn(l), kf))
    Unit(q, lambda it: ([I('l')], [ge(I('l'), 0)]), ranges={'l': (0, 2)}, keyshape=sh, tries=6)


def yyj_(l1, l2):
    def one(l, s):
        i, i2 = s

        def two(l_, t):
            j, j2 = t
            return fplus(behind(yy2(i, j)), jumps(8, m_plus(mcpp_f(i2), mcpp_f(j2)))).scale(binom(l, i) * binom(l_, j))
        return over_splits(l2, 2, two)
    return over_splits(l1, 2, one)


def m_plus(f, g):
    return fmul(f, g, key_add)


yy2j = defined('yy2j', SMJ, yyj_)


@contract(COV + 'moment_yy')
def moment_yy(it, l1, l2):
    need_nonneg(it, l1, l2)
    return need(poly(yy2j(l1, l2), KMJ))


Unit(COV + 'moment_yy', two_l, ranges={'l1': (0, 1), 'l2': (0, 1)}, keyshape=SMJ, tries=4)


@contract(COV + 'cov_yy')
def cov_yy(it, l1, l2):
    need_nonneg(it, l1, l2)
    return need(poly(yy2j(l1, l2) - fplus(ymom2j(l1), ymom2j(l2)), KMJ))


Unit(COV + 'cov_yy', two_l, ranges={'l1': (0, 1), 'l2': (0, 1)}, keyshape=SMJ, tries=4)
