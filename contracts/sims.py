"""Contracts of the Euler simulators (C20): admissible domain, complete samples, every jump applied exactly once."""
import z3
from engine.hoare import (SimUnit, V, Seq, Par, Vec, ArrRef, Unsupported, Failed, NJ, K, JT, JS, CNT, SJ, SEJ, EXP, SQRT, DIV, rv, conj, valid)

R = z3.Real
UN = {}
JSIZE = Seq(V(NJ, True), lambda i: V(JS(i)), 'JS')
JTIME = Seq(V(NJ, True), lambda i: V(JT(i)), 'JT')
V0, TH, SG, RHO, H, MU, T = (R(x) for x in ('v0', 'theta', 'sigma', 'rho', 'h', 'mu', 'T'))
N, M = R('N'), R('n_segment')
BASE = [K > 0, TH > 0, SG > 0]
CORR = [RHO >= -1, RHO <= 1]


def sim(name, *a, **k):
    u = SimUnit('ajdmom.' + name, *a, **k)
    UN[u.qual] = u
    return u


def same(vf, s, x, z, what):
    if isinstance(x, V):
        vf.oblige(s, x.z == z, what)
    else:
        raise Unsupported(what)


def is_path(js, jt):
    if js is not JSIZE or jt is not JTIME:
        raise Unsupported('jump path passed on in another form')


def samples(vf, s, v, n, kind=None):
    """the value returned is an array of exactly n samples, all stored"""
    if not isinstance(v, (Vec, ArrRef)):
        raise Unsupported('value returned')
    c = vf.complete(s, v)
    vf.oblige(s, c.n.z == n, 'exactly the requested number of samples is returned')
    if kind:
        if kind not in c.kinds:
            raise Failed('every price jump of the window enters its sample exactly once')
        vf.count += 1


# ---------------------------------------------------------------- models without conditioning on jumps
def simple(name, two=False, jumps=False):
    def setup(vf):
        p = {'mu': V(MU), 'rho': V(RHO)}
        pre = [H > 0, N >= 0, M >= 1] + CORR
        for i in (('1', '2') if two else ('',)):
            k, th, sg = R('k' + i), R('theta' + i), R('sigma' + i)
            p.update({'k' + i: V(k), 'theta' + i: V(th), 'sigma_v' + i: V(sg)})
            pre += [k > 0, th >= 0, sg >= 0]
        v0 = (V(R('v1')), V(R('v2'))) if two else V(V0)
        pre += [x.z >= 0 for x in (v0 if two else (v0,))]
        if jumps:
            lam, sj = R('lambda'), R('sigma_j')
            p.update({'lambda': V(lam), 'mu_j': V(R('mu_j'), False, {'mu_j': rv(1)}), 'sigma_j': V(sj)})
            pre += [lam >= 0, sj >= 0]
            vf.rate = z3.simplify(lam * H)
            vf.slopes = {'mu_j': lambda s: s.g['arr'].z}
        return [v0, Par(p), V(N, True), V(M, True), V(H)], pre

    def post(vf, s, v):
        samples(vf, s, v, N, 'full' if jumps else None)
    sim(name, setup, post, resets=True, draws=lambda vf, s: [s.g['npd'].z == 1, s.g['nd'].z == s.g['arr'].z])


simple('mdl_1fsv.euler.r1FSV')
simple('mdl_1fsv.euler.r1FSV_iid')
simple('mdl_1fsvj.euler.r1FSVJ', jumps=True)
simple('mdl_2fsv.euler.r2FSV', two=True)
simple('mdl_2fsvj.euler.r2FSVJ', two=True, jumps=True)


# ---------------------------------------------------------------- jump sums of a given path
def jumpsum(name, f, n):
    def setup(vf):
        return [V(T), JSIZE, JTIME] + ([V(K)] if n == 4 else []), [K > 0, NJ >= 0]

    def post(vf, s, v):
        vf.oblige(s, vf.num(v).z == f(CNT(T)), 'every jump up to the time is summed exactly once')

    def at_call(vf, s, args):
        is_path(args[1], args[2])
        if n == 4:
            same(vf, s, args[3], K, 'rate of mean reversion passed on')
        return V(f(CNT(args[0].z)))
    sim(name, setup, post, at_call, jumps=True, sums=True)


jumpsum('mdl_svvj.euler.IZ', SJ, 3)
jumpsum('mdl_svvj.euler.IEZ', SEJ, 4)


# ---------------------------------------------------------------- one step of the variance
def step(vf, s, v0, dt, strict):
    """ghost: a step from the current time of length dt, started from the last value plus the jumps arrived since then"""
    clock, c = s.g['clock'].z, CNT(s.g['clock'].z)
    vf.oblige(s, v0.z >= 0, 'a step starts from a variance that is not negative')
    vf.oblige(s, dt.z > 0 if strict else dt.z >= 0, 'length of a step')
    vf.oblige(s, v0.z == s.g['last'].z + SJ(c) - SJ(s.g['a'].z), 'every jump arrived since the last step is in the variance exactly once')
    new = z3.simplify(clock + dt.z)
    vf.oblige(s, z3.Or(c >= NJ, JT(c) >= new), 'no jump of the variance falls strictly inside a step')
    s.g['a'] = V(c, True)
    s.g['clock'] = V(new)


def inc_setup(vf):
    t0, dt = R('t0'), R('dt')
    return [V(V0), V(t0), V(dt), V(K), V(TH), V(SG)], BASE + [V0 >= 0, dt >= 0]


def inc_post(vf, s, v):
    if not (isinstance(v, tuple) and len(v) == 4):
        raise Unsupported('value returned')
    ie, i, i2, vt = map(vf.num, v)
    vf.oblige(s, vt.z >= 0, 'the variance after a step is not negative')
    vf.oblige(s, ie.z == EXP(z3.simplify(K * R('t0'), som=True)) * i.z, 'increment of the weighted integral')


def inc_call(vf, s, args):
    v0, t0, dt, k, th, sg = args
    for x, y in ((k, K), (th, TH), (sg, SG)):
        same(vf, s, x, y, 'parameters passed on')
    vf.oblige(s, t0.z == s.g['clock'].z, 'a step starts where the last one ended')
    step(vf, s, v0, dt, False)
    r = [V(vf.fresh(x)) for x in ('IE', 'I', 'I2', 'vt')]
    s.pc.append(r[3].z >= 0)
    for g, x in zip(('IE', 'I', 'I2'), r):
        s.g[g] = vf.add(s.g[g], x)
    s.g['last'] = r[3]
    return tuple(r)


sim('mdl_svvj.euler.incIEII', inc_setup, inc_post, inc_call)


def srd_setup(vf):
    tau = R('tau')
    return [V(V0), V(tau), V(K), V(TH), V(SG)], BASE + [V0 >= 0, tau > 0]


def srd_call(vf, s, args):
    v0, tau, k, th, sg = args
    for x, y in ((k, K), (th, TH), (sg, SG)):
        same(vf, s, x, y, 'parameters passed on')
    step(vf, s, v0, tau, True)
    r = V(vf.fresh('X'))
    s.pc.append(r.z >= 0)
    s.g['last'] = r
    return r


sim('mdl_srjd.euler.rSRD', srd_setup, lambda vf, s, v: vf.oblige(s, vf.num(v).z >= 0, 'the variance drawn is not negative'), srd_call)

PEND = ('pend', lambda x, c: x.g['last'].z + SJ(CNT(x.g['clock'].z)) - SJ(x.g['a'].z))


# ---------------------------------------------------------------- the whole path
def path_setup(vf):
    vf.start = {'last': V(V0)}
    return [V(V0), V(K), V(TH), V(SG), V(H), JSIZE, JTIME, V(M, True)], BASE + [V0 >= 0, H > 0, M >= 1, CNT(rv(0)) == 0, NJ >= 0]


def path_post(vf, s, v):
    if not (isinstance(v, tuple) and len(v) == 3):
        raise Unsupported('value returned')
    vf.oblige(s, s.g['clock'].z == H, 'the steps cover the window')
    for x, g in zip(v, ('IE', 'I', 'I2')):
        vf.oblige(s, vf.num(x).z == s.g[g].z, 'the integrals are the sums of the increments')


def path_call(vf, s, args):
    v0, k, th, sg, h, js, jt, m = args
    is_path(js, jt)
    for x, y in ((v0, V0), (k, K), (th, TH), (sg, SG), (h, T), (m, M)):
        same(vf, s, x, y, 'arguments of a path')
    r = tuple(V(vf.fresh(x)) for x in ('IE', 'I', 'I2'))
    for g, x in zip(('IE', 'I', 'I2'), r):
        s.g[g] = x
    s.g['sims'] = vf.add(s.g['sims'], V(1))
    return r


STEP = DIV(H, M)
sim('mdl_svvj.euler.rIEII', path_setup, path_post, path_call, jumps=True, cost=5,
    pool=lambda vf: [PEND, ('count*step', lambda x, c: c.z * STEP)])


# ---------------------------------------------------------------- samples of the return, given the jumps of the variance
ET = EXP(z3.simplify(-K * T, som=True))


def svvj_setup(vf):
    def cell(vf, s, v):
        g = s.g
        ie, i, i2 = g['IE'].z, g['I'].z, g['I2'].z
        iez, iz = SEJ(CNT(T)), SJ(CNT(T))
        vT = TH + ET * (V0 - TH + SG * ie + iez)                # solution of the variance equation at T
        IV = DIV(K * TH * T + SG * i + iz - vT + V0, K)           # its integral over the window
        y = MU * T - IV / 2 + RHO * i + SQRT(z3.simplify(1 - RHO * RHO)) * i2
        vf.oblige(s, g['sims'].z == 1, 'one path per sample')
        vf.oblige(s, v.z == y, 'the return of the path, with every variance jump of the window applied once')
    vf.cellspec = cell
    return [V(V0), V(MU), V(K), V(TH), V(SG), V(RHO), V(T), JSIZE, JTIME, V(N, True), V(M, True)], \
        BASE + CORR + [V0 >= 0, T > 0, M >= 1, N >= 0, CNT(rv(0)) == 0, NJ >= 0]


def svvj_call(vf, s, args):
    v0, mu, k, th, sg, rho, t, js, jt, n, m = args
    is_path(js, jt)
    for x, y in ((v0, V0), (mu, MU), (k, K), (th, TH), (sg, SG), (rho, RHO), (t, T), (n, N), (m, M)):
        same(vf, s, x, y, 'arguments passed on')
    return Vec(V(N, True), frozenset(['zero']))


sim('mdl_svvj.euler.rSVVJ', svvj_setup, lambda vf, s, v: samples(vf, s, v, N), svvj_call, jumps=True, resets=True)


def pre_vv():
    return BASE + CORR + [V0 >= 0, T > 0, M >= 1, N >= 0, CNT(rv(0)) == 0, NJ >= 0, R('sigma_s') >= 0]


def svij_setup(vf):
    lam = R('lambda')
    vf.rate = z3.simplify(lam * T)
    vf.slopes = {'mu_s': lambda s: s.g['arr'].z}
    return [V(V0), V(MU), V(K), V(TH), V(SG), V(RHO), V(T), JSIZE, JTIME, V(lam), V(R('mu_s'), False, {'mu_s': rv(1)}), V(R('sigma_s')),
            V(N, True), V(M, True)], pre_vv() + [lam >= 0]


sim('mdl_svij.euler.rSVIJ', svij_setup, lambda vf, s, v: samples(vf, s, v, N, 'full'), jumps=True, resets=True,
    draws=lambda vf, s: [s.g['npd'].z == 1, s.g['nd'].z == s.g['arr'].z])


def svcj_setup(vf):
    vf.slopes = {'mu_s': lambda s: NJ, 'rho_J': lambda s: SJ(NJ)}
    return [V(V0), V(MU), V(K), V(TH), V(SG), V(RHO), V(T), JSIZE, JTIME, V(R('mu_s'), False, {'mu_s': rv(1)}), V(R('sigma_s')),
            V(R('rho_J'), False, {'rho_J': rv(1)}), V(N, True), V(M, True)], pre_vv() + [CNT(T) == NJ]


sim('mdl_svcj.euler.rSVCJ', svcj_setup, lambda vf, s, v: samples(vf, s, v, N, 'full'), jumps=True, sums=True, resets=True,
    draws=lambda vf, s: [s.g['nd'].z == NJ])


# ---------------------------------------------------------------- the variance at the end of the window, given its jumps
def srjd_setup(vf):
    vf.start = {'last': V(V0)}

    def cell(vf, s, v):
        vf.oblige(s, s.g['clock'].z == T, 'the steps cover the window')
        vf.oblige(s, v.z == PEND[1](s, None), 'the sample is the variance at the end of the window, every jump in it once')
    vf.cellspec = cell
    return [V(V0), V(K), V(TH), V(SG), V(T), JSIZE, JTIME, V(N, True)], BASE + [V0 >= 0, T > 0, N >= 0, CNT(rv(0)) == 0, NJ >= 0, CNT(T) == NJ]


sim('mdl_srjd.euler.rSRJD', srjd_setup, lambda vf, s, v: samples(vf, s, v, N), jumps=True, resets=True, cost=5, pool=lambda vf: [PEND],
    rels=lambda vf: [('clock at jump', lambda x, c: z3.Or(conj(c.z == 0, x.g['clock'].z == 0), conj(c.z >= 1, x.g['clock'].z == JT(z3.simplify(c.z - 1))))),
                     ('c(clock)==count', lambda x, c: CNT(x.g['clock'].z) == c.z)])
