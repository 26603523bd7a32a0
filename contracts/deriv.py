"""Partial derivatives of formulas (dpoly, dt0) and the derivative entry points, for the four models that offer them.

A formula is SUM coef * PRODUCT variable^exponent; the meaning of each variable name gives the derivative of one term:
    e^{-kh}: d/dk e^{-Kkh} = -K h e^{-Kkh}           k^{-}: d/dk k^{-K} = -K k^{-(K+1)}
    sqrt(1-rho^2): d/drho (1-rho^2)^{K/2} = -K rho (1-rho^2)^{K/2-1}
    T = PROD_j (n1_j k1 + n2_j k2)^{-i_j}: dT/dk_f = SUM_j -i_j n_fj (n1_j k1 + n2_j k2)^{-1} T
    e^{-(n1*k1+n2*k2)h}: d/dk_f = -n_f h e^{..};      a plain variable: d/dx x^K = K x^{K-1}."""
from .base import *
from . import m1fsv, m1fsvj, m2fsv, m2fsvj
from .itos import T1
from .m2fsv import T_, E_

EK, KM_, SQ, H_ = 'e^{-kh}', 'k^{-}', 'sqrt(1-rho^2)', 'h'


def put(k, ch):
    return tuple(x + ch[i] if i in ch else x for i, x in enumerate(k))


def d_bag(bag, f):
    """dT/dk_{f+1}: parts (ib, dom, coef, factor)"""
    b = symbase(fresh('j'), True)
    j = E.base(b)
    n1, n2, i = (bat(bag, j, c) for c in range(3))
    return (b,), (c_le(ZERO, j), c_lt(j, blen(bag))), -i * (n1, n2)[f], T1((n1, n2, ONE))


def dterm(k, kf, wrt):
    """derivative of the monomial with exponents k over the names kf, as a formal sum"""
    ix = {n: i for i, n in enumerate(kf)}
    out = []
    if wrt == 'k' and EK in ix:
        out.append(fmono(-k[ix[EK]], put(k, {ix[H_]: ONE})))
        out.append(fmono(-k[ix[KM_]], put(k, {ix[KM_]: ONE})))
    elif wrt in ('k1', 'k2') and T_ in ix:
        f = 0 if wrt == 'k1' else 1
        t = ix[T_]
        ib, dom, c, g = d_bag(k[t], f)
        out.append(F((Term((), ib, dom, c, tuple(x.mul(g) if i == t else x for i, x in enumerate(k))),)))
        out.append(fmono(-k[ix[E_]][f], put(k, {ix[H_]: ONE})))
    else:
        out.append(fmono(k[ix[wrt]], put(k, {ix[wrt]: E.const(-1)})))
        if wrt == 'rho' and SQ in ix:
            out.append(fmono(-k[ix[SQ]], put(k, {ix['rho']: ONE, ix[SQ]: E.const(-2)})))
    r = FZERO
    for f in out:
        r = r + f
    return r


def wanted(it, wrt, names):
    """the parameter meant by wrt (None: not one of them)"""
    for n in names:
        c = eq_val(wrt, n)
        if c is True or c is not False and it.branch(c):
            return n
    return None


def lit(f):
    def g(*a):
        return f(*a)
    return g


@contract('ajdmom.mdl_2fsv.cmom.dt0')
def dt0(it, t0, wrt):
    w = wanted(it, wrt, ('k1', 'k2'))
    if w is None:
        raise PyRaise('ValueError')
    bag = t0.bag if isinstance(t0, BagSeq) and not t0.edits and not t0.head else t0
    if not isinstance(bag, Bag):
        raise Undecided('t0')
    ib, dom, c, g = d_bag(bag, 0 if w == 'k1' else 1)
    return GenListV([((), ib, dom, (bag.mul(g), c))], it.depth)


def dt0_goal(unit, it, args, out):
    if args[1] not in ('k1', 'k2'):
        if out.kind != 'raise':
            raise Fail('an unknown parameter is accepted', model_of(it.pc))
        return
    if out.kind != 'value':
        raise Fail('raises', model_of(it.pc))
    v = out.value
    if isinstance(v, ListV):
        v = GenListV([((), (), (), x) for x in v.items])
    if not isinstance(v, GenListV):
        raise Undecided('result of dt0')

    def term(x):
        if not (isinstance(x, tuple) and len(x) == 2):
            raise Fail('element is not a pair', model_of(it.pc))
        k = x[0].as_bag(it) if isinstance(x[0], BagSeq) else x[0]
        return toE(x[1]), (k,)
    want = unit.get_spec()(it, *args)
    chk_equal(it, v.sum(term), want.sum(term), 'derivative of the powers')


def dt0_real(t0, wrt):
    from engine import concrete as cc
    p = cc.real('ajdmom.poly.Poly')()
    for k, v in cc.real('ajdmom.mdl_2fsv.cmom.dt0')(t0, wrt):
        p[(k,)] = p.get((k,), 0) + v
    return p


def spec_dt0(it, t0, wrt):
    w = dt0(it, t0, wrt)
    if isinstance(t0, BagSeq) or not isinstance(t0, tuple):
        return w
    return w


def csetup_dt0(w):
    def f(it):
        b = gen_comp('T', it.rnd)
        return [tuple(tuple(E.const(y) for y in x) for x in b), w], []
    return f


def conc_dt0(it, t0, wrt):
    """the derivative of a concrete tuple of triples"""
    if wrt not in ('k1', 'k2'):
        raise PyRaise('ValueError')
    f = 0 if wrt == 'k1' else 1
    b, r = Bag((), tuple(t0)), FZERO
    for t in t0:
        if t[2].t:
            r = r + fmono(-t[2] * t[f], (b.mul(T1((t[0], t[1], ONE))),))
    return PolyV(r, None)


def dt0_spec(it, t0, wrt):
    return dt0(it, t0, wrt) if isinstance(t0, (Bag, BagSeq)) else conc_dt0(it, t0, wrt)


for w in ('k1', 'k2', 'k'):
    Unit('ajdmom.mdl_2fsv.cmom.dt0', (lambda w: lambda it: ([BagSeq((), Bag((Base('T', 't0'),), ()), 3, 0), w], [ge(blen(Bag((Base('T', 't0'),), ())), 0)]))(w),
         goal=dt0_goal, csetup=csetup_dt0(w), spec=dt0_spec, real_call=dt0_real, keyshape=('T',), variant=w)

S1, S1J, S2, S2J = (f'ajdmom.mdl_{m}.' for m in ('1fsv', '1fsvj', '2fsv', '2fsvj'))
KM, KCM = m1fsv.KM, m1fsv.KCM
P1 = ('k', 'theta', 'sigma_v', 'rho')
P2 = ('k1', 'k2', 'theta1', 'sigma_v1', 'theta2', 'sigma_v2')
J = ('lambda', 'mu_j', 'sigma_j')
# function -> (variable names, key shape, parameters, parameters the formula does not depend on)
DP = {
    S1 + 'mom.dpoly': (KM, 'i' * 8, P1 + ('mu',), ()),
    S1 + 'cmom.dpoly': (KCM, 'i' * 7, P1, ('mu',)),
    S1J + 'mom.dpoly': (m1fsvj.KMJ, 'i' * 11, P1 + ('mu',) + J, ()),
    S1J + 'cmom.dpoly': (m1fsvj.KCJ, 'i' * 10, P1 + J, ('mu',)),
    S2 + 'mom.dpoly': (m2fsv.KOM, m2fsv.SOM, P2 + ('mu',), ()),
    S2 + 'cmom.dpoly': (m2fsv.KOC, m2fsv.SOC, P2, ('mu',)),
    S2J + 'mom.dpoly': (m2fsvj.KMJ, m2fsvj.SMJ, P2 + ('mu',) + J, ()),
    S2J + 'cmom.dpoly': (m2fsvj.KCJ, m2fsvj.SCJ, P2 + J, ('mu',)),
}


def mk_dpoly(q, kf, sh, pars, absent):
    @contract(q)
    def dpoly(it, p, wrt):
        w = wanted(it, wrt, absent + pars)
        if w is None:
            raise PyRaise('ValueError')
        if w in absent:
            return poly(FZERO, kf)
        return poly(bind_over(it.getf(p), lambda k: dterm(k, kf, w)), kf)

    for w in pars + absent + (None,):
        def setup(it, w=w):
            if w is None:
                s = StrV('wrt')
                return [P('P', sh, keyfor=kf), s], [c_not(eq_val(s, n)) for n in pars + absent]
            return [P('P', sh, keyfor=kf), w], []

        def csetup(it, w=w):
            return [P('P', sh, keyfor=kf), w if w is not None else it.rnd.choice(('h', 'v', 'K', 'rho_', 'kk', 'v0', 'sigma', ''))], []
        Unit(q, setup, csetup=csetup, keyshape=sh, variant='d/d' + w if w else 'any other name')


for q, a in DP.items():
    mk_dpoly(q, *a)
