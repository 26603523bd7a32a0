"""mdl_svij: the svvj return plus an independent compound Poisson sum of normal jumps, given the jumps of the variance."""
from .base import *
from . import cond_cm, cpp_mom
from .cond_cm import K13, K15, S13, S15, ymv, cmv, need_pos, seq_inv
from .cpp_mom import mcpp_f, cmcpp_f

MV, CV = 'ajdmom.mdl_svij.cond2_mom.', 'ajdmom.mdl_svij.cond2_cmom.'
KJS = ('lmbd_s', 'mu_s', 'sigma_s')


def with_jumps(f, g):
    """product of a svvj moment and a jump moment: (lambda h)^i = lambda^i h^i, h is variable 1"""
    return fmul(f, g, lambda a, b: (a[0], a[1] + b[0]) + tuple(a[2:]) + tuple(b))


def conv(l, f, g):
    return over_splits(l, 2, lambda n, s: with_jumps(f(s[0]), g(s[1])).scale(binom(n, s[0])))


ym = defined('ym_svij', S15 + 'iii', lambda l: conv(l, ymv, mcpp_f), lambda k, a: seq_inv(*k[8:12]))
cm = defined('cm_svij', S13 + 'iii', lambda l: conv(l, cmv, cmcpp_f), lambda k, a: seq_inv(*k[6:10]))

for mod, nm, at, name, kf, sh in ((MV, 'moment', ym, 'ym_svij', K15 + KJS, S15 + 'iii'), (CV, 'cmoment', cm, 'cm_svij', K13 + KJS, S13 + 'iii')):
    @contract(mod + nm + 's_y_to')
    def to(it, l, at=at, kf=kf):
        need_pos(it, l)
        return SymListV(toE(l) + 1, lambda it2, j: poly(at(j), kf))

    @contract(mod + nm + '_y')
    def one(it, l, at=at, kf=kf):
        need_pos(it, l)
        return poly(at(l), kf)
    Unit(mod + nm + 's_y_to', lambda it: ([I('l')], [ge(I('l'), 1)]), opts={'list': {'atom': name, 'shape': sh, 'keyfor': kf}},
         ranges={'l': (1, 3)}, tries=4, keyshape=sh)
    Unit(mod + nm + '_y', lambda it: ([I('l')], [ge(I('l'), 1)]), ranges={'l': (1, 3)}, tries=4, keyshape=sh)
