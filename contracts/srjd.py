"""mdl_srjd: moments of the square-root jump diffusion, given v0 (cond_*), and without (mom, cmom).

v_t = e^{-kt}(v0 - theta) + theta + e^{-kt} X_t,   X = sigma IE + IEZ;   E[X] = lmbd mu_v (e^{kt} - 1)/k."""
from .base import *
from . import cpp_mom, srjd_iez, srjd_cond
from .srjd_cond import MIE, KM, SH

M, C = 'ajdmom.mdl_srjd.cond_mom.', 'ajdmom.mdl_srjd.cond_cmom.'


def add7(f, *add):
    return f.mapkey(lambda k: tuple(x + toE(y) for x, y in zip(k, add)))


def mx_(n):
    return over_splits(n, 2, lambda n, s: add7(MIE(s[0], s[1]), 0, 0, 0, 0, s[0], 0, 0).scale(binom(n, s[0])))


mx = defined('X_srjd', SH, mx_)


def mv_(n):
    return over_splits(n, 3, lambda n, s: add7(mx(s[2]), -s[0] - s[2], 0, s[0], s[1], 0, 0, 0).scale(multinom(n, s)))


mv = defined('V_srjd', SH, mv_)


def cx_(n):
    """E[(X - E X)^n]: splits into X^a (-lmbd mu_v/k e^{kt})^b (lmbd mu_v/k)^c"""
    return over_splits(n, 3, lambda n, s: add7(mx(s[0]), s[1], s[1] + s[2], 0, 0, 0, s[1] + s[2], s[1] + s[2])
                       .scale(multinom(n, s) * powE(-ONE, s[1])))


cx = defined('cX_srjd', SH, cx_)


def cv_(n):
    """E[(v - E v)^n] = e^{-nkt} E[(X - E X)^n]"""
    n = toE(n)
    return over_splits(n, 3, lambda n, s: add7(mx(s[0]), s[1] - n, s[1] + s[2], 0, 0, 0, s[1] + s[2], s[1] + s[2])
                       .scale(multinom(n, s) * powE(-ONE, s[1])))


cv = defined('cV_srjd', SH, cv_)

for q, at in ((M + 'moment_x', mx), (M + 'moment_v', mv), (C + 'cmoment_x', cx), (C + 'cmoment_v', cv)):
    @contract(q)
    def mom(it, n, at=at):
        need_nonneg(it, n)
        return need(poly(at(n), KM))
    Unit(q, lambda it: ([I('n')], nonneg('n')), ranges={'n': (0, 3)}, tries=8)
