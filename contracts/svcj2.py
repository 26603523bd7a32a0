"""mdl_svcj.cond2_*: the svvj return plus the contemporaneous price jumps, given the jumps of the variance.

Given the variance jump J_i the price jump is N(mu_s + rho_J J_i, sigma_s^2).  Moments of the sum of the N jumps:
  E[(Z_1 + .. + Z_N)^m] = SUM_{n_1+..+n_N=m} m!/(n_1!..n_N!) PRODUCT_i E[Z_i^n_i]"""
from .base import *
from . import cond_cm, cpp_mom, svij
from .cond_cm import K13, K15, S13, S15, ymv, cmv, need_pos, seq_inv, rep
from .utils_c import splits, mod2
from .p2n_cond import JS
from engine.odo import odometer
from engine.unit import PARTIAL, retire, chk_equal, Fail
from engine.walk import walker
from engine.loops import index_loop

MV, CV = 'ajdmom.mdl_svcj.cond2_mom.', 'ajdmom.mdl_svcj.cond2_cmom.'
KI = ('mu_s', 'rho_J', 'sigma_s', 'J_i')
KZ = ('mu_s', 'rho_J', 'sigma_s', 'J_{1:n}')


# ---- one price jump given the variance jump
def mn(n):
    """E[(mu_s + rho_J J + sigma_s e)^n]: keys (mu_s, rho_J, sigma_s, J)"""
    def one(k):
        b = symbase(fresh('i'), True)
        i = E.base(b)
        return F((Term((), (b,), (ge(i, 0), ge(k[0], i)), binom(k[0], i), (i, k[0] - i, 2 * k[1], k[0] - i)),))
    return bind_over(fatom('N', (toE(n),), 'ii'), one)


@contract(MV + 'mnorm_cond')
def mnorm_cond(it, n):
    need_nonneg(it, n)
    return poly(mn(n), KI)


Unit(MV + 'mnorm_cond', lambda it: ([I('n')], nonneg('n')), ranges={'n': (0, 6)}, tries=12, keyshape='iiii')


def prod_jumps(ns):
    """moments of independent jumps of the given orders: keys (mu_s, rho_J, sigma_s, (J exponents))"""
    r = fmono(ONE, (ZERO, ZERO, ZERO, as_seq(())))
    for n in ns:
        r = fmul(r, mn(n), lambda a, b: (a[0] + b[0], a[1] + b[1], a[2] + b[2], a[3].concat(as_seq((b[3],)))))
    return r


def vec(seq):
    return FnE('vec', seq)


def jumps_to(seq, j):
    """the moments of the first j jumps, orders given by a sequence of any length:  P(0) = 1, P(j+1) = P(j) (x) mn(seq_j)"""
    return fatom('prodJ', (vec(seq), toE(j)), 'iiiq')


@contract(MV + 'comb_poly')
def comb_poly(it, index):
    ns = it.iter_concrete(index)
    if ns is None and isinstance(index, StackV) and index.nonneg:
        it.read_obj(index)
        need_nonneg(it, *index.items)
        return poly(jumps_to(index.seq(), index.length()), KZ)
    if ns is None:
        raise Undecided('comb_poly: number of jumps')
    need_nonneg(it, *ns)
    return poly(prod_jumps([toE(n) for n in ns]), KZ)


for N in (0, 1, 2, 3, 4):
    Unit(MV + 'comb_poly', (lambda N: lambda it: ([ListV([I(f'n{i}') for i in range(N)])], nonneg(*[f'n{i}' for i in range(N)])))(N),
         variant=f'{N} jumps', bounded=f'number of jumps {N}', ranges={f'n{i}': (0, 3) for i in range(N)}, tries=6, keyshape='iiiq')


# ---- the sum of all jumps, for a fixed number of jumps
def iz_(m, N):
    if m.is_const() and m.cval() == 0:
        return fmono(ONE, (ZERO, ZERO, ZERO, rep(0, N)))
    if not N.is_const():
        return None
    N = int(N.cval())
    if N == 0:
        return fmono(ONE, (ZERO, ZERO, ZERO, as_seq(()))).guard(c_eq(m, ZERO))
    return over_splits_(m, N, lambda ns: prod_jumps(ns).scale(multinom(m, ns)))


def over_splits_(m, N, fn):
    bs, dom, v = splits(N, m)['full']([])
    f = fn(tuple(v))
    return F(Term(t.pb, tuple(bs) + tuple(t.ib), tuple(dom) + tuple(t.dom), t.coef, t.key) for t in f.ts)


iz = defined('IZs', 'iiiq', iz_, lambda k, a: [c_eq(as_seq(k[3]).length(), a[1])])
PARTIAL.add('IZs')


def jumps_of(it, J):
    if isinstance(J, OpaqueSeq):
        return J.length
    n = it.iter_concrete(J)
    if n is None:
        raise Undecided('jump sizes')
    return E.const(len(n))


@contract(MV + 'moment_IZs')
def moment_IZs(it, m, J):
    need_nonneg(it, m)
    return poly(iz(toE(m), jumps_of(it, J)), KZ)


def split0(q):
    def spec(it, m, J):
        return CONTRACTS[q](it, ZERO if it.branch(c_eq(m, ZERO)) else m, J)
    return spec


def jlist(N):
    return ListV([Sym(f'J{i}') for i in range(N)])


def item_iz(m):
    return lambda it, v: prod_jumps(v).scale(multinom(m, v))


JG = {f'J{i}': (lambda r: Fraction(r.randint(1, 9), 4)) for i in range(8)}
for N in (0, 1, 2, 3, 4, 5):
    Unit(MV + 'moment_IZs', (lambda N: lambda it: ([I('m'), jlist(N)], nonneg('m')))(N), spec=split0(MV + 'moment_IZs'), variant=f'{N} jumps', bounded=f'number of jumps {N}',
         opts={'while': odometer(dict(splits(N, I('m')), kind='poly', shape='iii' + 'i' * N, item=item_iz(I('m'))))} if N > 2 else {},
         ranges={'m': (0, 4)}, gen=JG, tries=6, keyshape='iiiq')


def cmn(n):
    """central moment of N(0, sigma_s^2)"""
    n = toE(n)
    if n.is_const():
        x = int(n.cval())
        return fmono(FactE(n) / FactE(n / 2) / powE(E.const(2), n / 2), (n,)) if x % 2 == 0 else FZERO
    return fmono(FactE(n) / FactE(n / 2) / powE(E.const(2), n / 2), (n,)).guard(c_eq(mod2(n), ZERO))


def ciz_item(m):
    def item(it, v):
        r = fmono(ONE, (ZERO,))
        for n in v:
            r = fplus(r, cmn(n))
        return r.scale(multinom(m, v))
    return item


def ciz_(m, N):
    if m.is_const() and m.cval() == 0:
        return fmono(ONE, (ZERO,))
    if m.is_const() and m.cval() == 1:
        return FZERO
    if not N.is_const():
        return None
    N = int(N.cval())
    if N == 0:
        return fmono(ONE, (ZERO,)).guard(c_eq(m, ZERO))
    return over_splits_(m, N, lambda ns: ciz_item(m)(None, ns))


ciz = defined('cIZs', 'i', ciz_)
PARTIAL.add('cIZs')


@contract(CV + 'cmoment_IZs')
def cmoment_IZs(it, m, J):
    need_nonneg(it, m)
    return poly(ciz(toE(m), jumps_of(it, J)), ('sigma_s',))


for N in (0, 1, 2, 3, 4, 5):
    Unit(CV + 'cmoment_IZs', (lambda N: lambda it: ([I('m'), jlist(N)], nonneg('m')))(N), spec=split0(CV + 'cmoment_IZs'), variant=f'{N} jumps', bounded=f'number of jumps {N}',
         opts={'while': odometer(dict(splits(N, I('m')), kind='poly', shape='i', item=ciz_item(I('m'))))} if N > 2 else {},
         ranges={'m': (0, 6)}, gen=JG, tries=7, keyshape='i')


# ---- any number of jumps
from .utils_c import split_walk
from .fz import comp

NJ = JS.length


def seq_of(t):
    return t if isinstance(t, SeqV) else as_seq(t)


def same_poly(it, pc, a, f, kf):
    if not isinstance(a, PolyV) or eq_val(tuple(a.keyfor or ()), kf) is not True:
        return False
    keep, it.pc = it.pc, pc
    try:
        chk_equal(it, a.f, f, 'state of the loop')
        return True
    except Fail:
        return False
    finally:
        it.pc = keep


def poly_loop(kf, start, state, step):
    return index_loop({'vars': 1, 'types': PolyV, 'start': lambda v: (start,), 'state': lambda v, j: (state(v, j),), 'facts': lambda v, j: [],
                       'conds': lambda v, j: [ge(comp(v, j), 0)], 'step': lambda v, j, pc: (step(v, j),),
                       'make': lambda it, y: PolyV(y, kf, it.depth), 'same': lambda it, pc, a, f: same_poly(it, pc, a, f, kf)})


def next_jump(v, j):
    return fmul(jumps_to(v.seq(), j), mn(comp(v, j)), lambda a, b: (a[0] + b[0], a[1] + b[1], a[2] + b[2], a[3].concat(as_seq((b[3],)))))


def orders(it):
    b = Base('Q', 'orders')
    a, n = I('n0'), I('n_jumps')
    v = StackV(b, n, I('sum_orders'), a, [], it.depth)
    v.nonneg = True
    return [v], [ge(n, 1), ge(a, 0), c_eq(len_of(b), n)]


def cs_orders(it):
    return [ListV([E.const(it.rnd.randint(0, 3)) for _ in range(it.rnd.randint(0, 4))])], []


attach = retire(MV + 'comb_poly', MV + 'moment_IZs', CV + 'cmoment_IZs')
attach(Unit(MV + 'comb_poly', lambda it: ([ListV([])], []), variant='no jumps', csetup=cs_orders, tries=4, keyshape='iiiq'))
attach(Unit(MV + 'comb_poly', orders, variant='jumps', opts={'for': poly_loop(KZ, fmono(ONE, (ZERO, ZERO, ZERO, as_seq(()))), lambda v, j: jumps_to(v.seq(), j), next_jump)},
            csetup=cs_orders, tries=12, keyshape='iiiq'))


def small(q):
    """the contract, with the cases of few jumps written out"""
    def spec(it, m, J):
        if it.branch(c_eq(m, ZERO)):
            return CONTRACTS[q](it, ZERO, J)
        for n in (0, 1, 2):
            if it.branch(c_eq(NJ, E.const(n))):
                return CONTRACTS[q](it, m, OpaqueSeq(J.name, E.const(n), J.elem))
        return CONTRACTS[q](it, m, J)
    return spec


def iz_any(it, seq):
    m = I('m')
    if seq.explicit():
        return prod_jumps([x[1] for x in seq.p]).scale(multinom(m, [x[1] for x in seq.p]))
    return jumps_to(seq, seq.length()).scale(multi(m, seq))


def multi(m, seq):
    r = FactE(m)
    for x in seq.p:
        r = r / (FactE(x[1]) if x[0] == 'e' else FnE('pfact', SeqV((x,)), len_of(x[1])))
    return r


def cprod(seq, j):
    return fatom('prodC', (vec(seq), toE(j)), 'i')


def ciz_any(it, seq):
    m = I('m')
    if seq.explicit():
        return ciz_item(m)(it, [x[1] for x in seq.p])
    return cprod(seq, seq.length()).scale(multi(m, seq))


def cs_iz(it):
    return [E.const(it.rnd.randint(0, 4)), ListV([E.const(Fraction(it.rnd.randint(1, 9), 4)) for _ in range(it.rnd.randint(0, 5))])], []


attach(Unit(MV + 'moment_IZs', lambda it: ([I('m'), JS], nonneg('m', 'nJ')), spec=small(MV + 'moment_IZs'), csetup=cs_iz, tries=12, keyshape='iiiq',
            opts={'while': walker(split_walk(NJ, I('m'), kind='poly', shape='iiiq', item=iz_any, total=lambda it: iz(I('m'), NJ)))}))
attach(Unit(CV + 'cmoment_IZs', lambda it: ([I('m'), JS], nonneg('m', 'nJ')), spec=small(CV + 'cmoment_IZs'), csetup=cs_iz, tries=12, keyshape='i',
            opts={'while': walker(split_walk(NJ, I('m'), kind='poly', shape='i', item=ciz_any, total=lambda it: ciz(I('m'), NJ))),
                  'for': poly_loop(('sigma',), fmono(ONE, (ZERO,)), lambda v, j: cprod(v.seq(), j), lambda v, j: fplus(cprod(v.seq(), j), cmn(comp(v, j))))}))


# ---- moments of the return
def behind(f, g):
    return fmul(f, g, lambda a, b: tuple(a) + tuple(b))


def conv(l, f, g):
    return over_splits(l, 2, lambda n, s: behind(f(s[0]), g(s[1])).scale(binom(n, s[0])))


ym = defined('ym_svcj', S15 + 'iiiq', lambda l, N: conv(l, ymv, lambda m: iz(m, N)), lambda k, a: seq_inv(*k[8:12]))
cm = defined('cm_svcj', S13 + 'i', lambda l, N: conv(l, cmv, lambda m: ciz(m, N)), lambda k, a: seq_inv(*k[6:10]))


def cs_l(it):
    return [I('l'), ListV([E.const(Fraction(it.rnd.randint(1, 9), 4)) for _ in range(it.rnd.randint(0, 3))])], [ge(I('l'), 1)]


for mod, nm, at, name, kf, sh in ((MV, 'moment', ym, 'ym_svcj', K15 + KZ, S15 + 'iiiq'), (CV, 'cmoment', cm, 'cm_svcj', K13 + ('sigma_s',), S13 + 'i')):
    @contract(mod + nm + 's_y_to')
    def to(it, l, J, at=at, kf=kf):
        need_pos(it, l)
        n = jumps_of(it, J)
        return SymListV(toE(l) + 1, lambda it2, j: poly(at(j, n), kf))

    @contract(mod + nm + '_y')
    def one(it, l, J, at=at, kf=kf):
        need_pos(it, l)
        return poly(at(l, jumps_of(it, J)), kf)
    Unit(mod + nm + 's_y_to', lambda it: ([I('l'), JS], [ge(I('l'), 1), ge(Sym('nJ'), 0)]),
         opts={'list': {'atom': name, 'shape': sh, 'keyfor': kf, 'more': (Sym('nJ'),)}}, ranges={'l': (1, 3)}, csetup=cs_l, tries=4, keyshape=sh)
    Unit(mod + nm + '_y', lambda it: ([I('l'), JS], [ge(I('l'), 1), ge(Sym('nJ'), 0)]), ranges={'l': (1, 3)}, csetup=cs_l, tries=4, keyshape=sh)
