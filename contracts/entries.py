"""C17, the numeric entry points of the conditional and jump models: the number returned for an order is the formula of that order with every
variable replaced by what its *name* stands for (the position it has is read off the formula's own variable list)."""
from .base import *
from . import cond_cm, svij, svcj2, srjd_iez, srjd_cond, srjd_cond2, svcj_z, svcj
from .p2n_cond import MEANC, meaning_c, JS, ST, PJ, PR, IJ, GENC, dict_c, req_c, RealSeq, cmp_env, D
from .p2n import A1, par_of, ex

NAMED = dict(MEANC)
NAMED.update({
    'e^{-kt}': lambda K, p: ex(-K * p['k'] * p['h']),
    'v_0-theta': NAMED['v0-theta'],
    'v_0': lambda K, p: powE(p['v0'], K),
    'sigma': lambda K, p: powE(p['sigma'] if 'sigma' in p else p['sigma_v'], K),
})
BOUNDS = dict(NAMED, **{'e^{kt}': NAMED['e^{kt-ub}'], 'e^{ks}': NAMED['e^{ks-lb}']})                      # moments over (lb, ub]
FROM0 = dict(NAMED, **{'e^{ks}': lambda K, p: ONE, 't-s': lambda K, p: powE(p['h'], K)})                  # moments over (0, t]


def value(it, p, par, mean):
    d = par_of(par)
    if not isinstance(p, PolyV) or p.keyfor is None:
        raise Undecided('formula')
    return norm_num(bind_over(it.getf(p), lambda k: fscalar(meaning_c(tuple(p.keyfor), k, d, mean))))


def entry(fn, formula, pars, names=('n',), order=False, jumps=False, low=0, ranges=(0, 2), mean=NAMED, pick=None):
    @contract(D + fn)
    def val(it, *a):
        *n, par = a
        if order:
            n = it.iter_concrete(n[0])
            if n is None or len(n) != len(names):
                raise Undecided('orders')
        if jumps:
            n = list(n) + [par_of(par)['jumpsize']]
        return value(it, pick(it, *n) if pick else CONTRACTS[D + formula](it, *n), par, mean)

    def setup(it):
        n = [I(x) for x in names]
        return [tuple(n)] * order + n * (not order) + [dict_c(pars)], [ge(x, low) for x in n] + req_c(pars)

    def csetup(it):
        a, r = setup(it)
        n = it.rnd.randint(0, 3)
        for k, s in (('jumpsize', RealSeq('jumpsize', n)), ('jumptime', RealSeq('jumptime', n))):
            a[-1].d[repr(k)] = (k, s)
        return a, r
    Unit(D + fn, setup, csetup=csetup if jumps else None, gen=dict(GENC), compare=cmp_env, ranges=dict({x: ranges for x in names}, nJ=(0, 2)), tries=4)


for q in ('svvj', 'svij', 'svcj'):
    pars = PJ + {'svvj': (), 'svij': IJ, 'svcj': ('mu_s', 'rho_J', 'sigma_s')}[q]
    entry(q + '.cond2_mom.m', q + '.cond2_mom.moment_y', pars, ('l',), jumps=q == 'svcj', low=1, ranges=(1, 2))
    entry(q + '.cond2_cmom.cm', q + '.cond2_cmom.cmoment_y', pars, ('l',), jumps=q == 'svcj', low=1, ranges=(1, 2))


def simplified(it, l):
    lst = CONTRACTS[D + '1fsv.cond_cmom.cmoments_y_to'](it, l)
    return CONTRACTS[D + '1fsv.cond_cmom.simplify'](it, lst.fn(it, toE(l)), E.const(2))


entry('1fsv.cond_cmom.cond_cm', None, ('v0',) + A1, ('l',), low=1, ranges=(1, 3), pick=simplified)
PIEZ = ('k', 'lmbd', 'mu_v', 'lb', 'ub')
entry('srjd.iez_mom.m', 'srjd.iez_mom.moment_IEZ', PIEZ, ranges=(0, 4), mean=BOUNDS)
entry('srjd.iez_cmom.cm', 'srjd.iez_cmom.cmoment_IEZ', PIEZ, ranges=(0, 4), mean=BOUNDS)
for fn, f, k in (('cond_ie_iez_mom.m_ie', 'moment_ie', 1), ('cond_ie_iez_mom.m_ie_iez', 'moment_ie_iez', 2), ('cond_ie_iez_cmom.m_ie', 'moment_ie', 1),
                 ('cond_ie_iez_cmom.cm_ie_iez', 'cmoment_ie_iez', 2), ('cond_mom.m_x', 'moment_x', 1), ('cond_mom.m', 'moment_v', 1), ('cond_cmom.cm_x', 'cmoment_x', 1),
                 ('cond_cmom.cm', 'cmoment_v', 1)):
    entry('srjd.' + fn, 'srjd.' + fn.split('.')[0] + '.' + f, PR, ('n1', 'n2')[:k] if k == 2 else ('n',), ranges=(0, 3 - k // 2))
entry('srjd.cond2_mom.m', 'srjd.cond2_mom.moment_v', PJ, ('l',), ranges=(0, 2))
entry('srjd.cond2_cmom.cm', 'srjd.cond2_cmom.cmoment_v', PJ, ('l',), ranges=(0, 2))
entry('svcj.cond_mom.m_y', 'svcj.cond_mom.moment_y', PR)
entry('svcj.cond_cmom.cm_y', 'svcj.cond_cmom.cmoment_y', PR)
entry('svcj.mom.unm_y', 'svcj.mom.moment_y', PR)
entry('svcj.cmom.cm_y', 'svcj.cmom.cmoment_y', PR)
entry('svcj.ieziziz_mom.m_ieziziz', 'svcj.ieziziz_mom.moment_ieziziz', PR, ('n1', 'n2', 'n3'), order=True, mean=FROM0)
entry('svcj.cond_ieii_ieziziz_mom.m_ieii_ieziziz', 'svcj.cond_ieii_ieziziz_mom.moment_ieii_ieziziz', PR, tuple(f'n{i}' for i in range(1, 7)), order=True, ranges=(0, 1))
