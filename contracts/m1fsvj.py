"""mdl_1fsvj: Heston return plus an independent compound Poisson sum of normal jumps: moments by binomial convolution."""
from .base import *
from . import m1fsv, cpp_mom
from .m1fsv import KM, KCM, ymom, ycmom, yy, two_l
from .cpp_mom import mcpp_f, cmcpp_f

MOM, CM, COV = 'ajdmom.mdl_1fsvj.mom.', 'ajdmom.mdl_1fsvj.cmom.', 'ajdmom.mdl_1fsvj.cov.'
KJ = ('lambda', 'mu_j', 'sigma_j')
KMJ, KCJ = KM + KJ, KCM + KJ


def jumps(n, m, f):
    """jump keys (i, mu, sigma) placed behind the n variables of the diffusion: (lambda h)^i = lambda^i h^i"""
    return f.mapkey(lambda q: tuple(q[0] if i == 1 else ZERO for i in range(n)) + (q[0], q[1], q[2]))


def behind(f):
    return f.mapkey(lambda k: tuple(k) + (ZERO, ZERO, ZERO))


def conv(l, f, g, n):
    """SUM_i C(l, i) f(i) g(l - i)"""
    def one(l, s):
        i, j = s
        return fplus(behind(f(i)), jumps(n, 3, g(j))).scale(binom(l, i))
    return over_splits(l, 2, one)


ymomj = defined('ymom1j', 'i' * 11, lambda l: conv(l, ymom, mcpp_f, 8))
ycmomj = defined('ycmom1j', 'i' * 10, lambda l: conv(l, ycmom, cmcpp_f, 7))

for q, fn, kf in ((MOM + 'moment_y', ymomj, KMJ), (CM + 'cmoment_y', ycmomj, KCJ)):
    @contract(q)
    def moment_y(it, l, fn=fn, kf=kf):
        need_nonneg(it, l)
        return poly(fn(l), kf)
    Unit(q, lambda it: ([I('l')], [ge(I('l'), 0)]), ranges={'l': (0, 3)}, tries=12)


def yyj_(l1, l2):
    def one(l, s):
        i, i2 = s

        def two(l_, t):
            j, j2 = t
            return fplus(behind(yy(j, i)), jumps(8, 3, fplus(mcpp_f(i2), mcpp_f(j2)))).scale(binom(l, i) * binom(l_, j))
        return over_splits(l1, 2, two)
    return over_splits(l2, 2, one)


yyj = defined('yy1j', 'i' * 11, yyj_)


@contract(COV + 'moment_yy')
def moment_yy(it, l1, l2):
    need_nonneg(it, l1, l2)
    return poly(yyj(l1, l2), KMJ)


Unit(COV + 'moment_yy', two_l, ranges={'l1': (0, 2), 'l2': (0, 2)}, tries=8)


@contract(COV + 'cov_yy')
def cov_yy(it, l1, l2):
    need_nonneg(it, l1, l2)
    return need(poly(yyj(l1, l2) - fplus(ymomj(l1), ymomj(l2)), KMJ))


Unit(COV + 'cov_yy', two_l, ranges={'l1': (0, 2), 'l2': (0, 2)}, tries=8)
