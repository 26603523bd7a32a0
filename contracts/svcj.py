"""mdl_svcj: contemporaneous jumps in price and variance; moments given v0 (cond_*), and under stationarity (mom, cmom).

IE = INT e^{ks} sqrt(v) dw, I = INT sqrt(v) dw, I* = INT sqrt(v) dw*;  IEZ = SUM e^{k s_i} J_i, IZ = SUM J_i, IZS = SUM J^s_i over the jumps
of the interval.  Ito's formula with v(s) = e^{-ks}(v0-theta) + theta + e^{-ks}(sigma IE_s + IEZ_s), the increments of the jump sums
after s independent of the past:
  E[IE^n1 I^n2 I*^n3 IEZ^n4 IZ^n5 IZS^n6] = SUM over brackets and i1,i2,i3 of C(n4,i1) C(n5,i2) C(n6,i3)
      INT_0^t E[(IEZ,IZ,IZS)_{s,t}^{(n4-i1,n5-i2,n6-i3)}] e^{wks} E[v(s) (lower powers) IEZ_s^i1 IZ_s^i2 IZS_s^i3] ds."""
from .base import *
from engine.tables import *
from . import cpp_mom, ito, srjd_mom
from .ito import ito_pairs, nonneg_all
from .utils_c import mod2, rho_f
from .srjd_mom import UM, KU
from .srjd_cond import remade
from .svcj_z import nonzero, zzz

N = 'ajdmom.mdl_svcj.'
Z, X, CMM, CCM, MM, CM = N + 'ieziziz_mom.', N + 'cond_ieii_ieziziz_mom.', N + 'cond_mom.', N + 'cond_cmom.', N + 'mom.', N + 'cmom.'
KZ = ('e^{kt}', 'e^{ks}', 't-s', 'k^{-}', 'lmbd', 'mu_v', 'mu_s', 'sigma_s')
KX = ('e^{kt}', 't', 'k^{-}', 'v0-theta', 'theta', 'sigma', 'lmbd', 'mu_v', 'mu_s', 'sigma_s')
KE = ('e^{kt}', 't', 'e^{ks}', 's', 'k^{-}', 'lmbd', 'mu_v', 'mu_s', 'sigma_s')
S8, S10 = 'i' * 8, 'i' * 10


zz = zzz


# ---- the jump sums over [0,t]
def conv_f(f):
    return f.mapkey(lambda k: (k[0], k[2], k[3], ZERO, ZERO, ZERO) + tuple(k[4:]))


@contract(X + 'ieziziz_to_ieii_ieziziz')
def conv(it, p):
    return poly(conv_f(it.getf(p)), KX)


def dom8(k):
    return [ge(k[2], 0)]


def gen8(r):
    return tuple(r.randint(0, 3) if i == 2 else r.randint(-2, 3) for i in range(8))


Unit(X + 'ieziziz_to_ieii_ieziziz', lambda it: ([P('P', S8, keyfor=KZ)], []), keyshape=S10)


def expand_f(f):
    """(t - s)^k[2] expanded"""
    def ob(k):
        b = symbase(fresh('i'), True)
        i = E.base(b)
        j = k[2] - i
        return F((Term((), (b,), (ge(i, 0), ge(k[2], i)), binom(k[2], i) * powE(-ONE, j), (k[0], i, k[1], j) + tuple(k[3:])),))
    return bind_over(f, ob)


@contract(X + 'expand_ieziziz')
def expand_ieziziz(it, p):
    f = it.getf(p)
    for t in f.ts:
        if feasible(list(it.pc) + list(t.dom) + inv_conds(t.pb) + [c_lt(t.key[2], ZERO)]):
            raise Undecided('negative power of t-s')
    r = poly(expand_f(f), KE)
    return nonzero(r) if getattr(p, 'nonempty', None) is f else r        # the substitution is injective


Unit(X + 'expand_ieziziz', lambda it: ([P('P', S8, keyfor=KZ, dom=dom8)], []), gen={'P': gen8}, keyshape='i' * 9)


# ---- INT_0^t e^{m1 k s} s^m2 f(s) ds times a factor
def int_f(f, tp, m1, m2):
    def one(k):
        def add(q):
            r = [q[0], q[1], q[2] + k[2]] + list(k[3:])
            if tp in (1, 2, 3):
                r[tp + 2] = r[tp + 2] + 1
            return tuple(r)
        return fatom('int_et', (k[0] + m1, k[1] + m2), 'iii').mapkey(add)
    return bind_over(f, one)


@contract(X + 'int_e_s_poly')
def int_e_s_poly(it, c, tp, m1, m2, p):
    tp = toE(tp)
    for v in (1, 2, 3):
        if it.branch(c_eq(tp, E.const(v))):
            break
    else:
        v = 4
    f = it.getf(p)
    for t in f.ts:
        bad = c_lt(t.key[1] + m2, ZERO)
        if feasible(list(it.pc) + list(t.dom) + inv_conds(t.pb) + [bad]):
            it.frames[-1].raises.append((t.pb, t.ib, t.dom + (bad,), 'ValueError'))
            f = f.guard(c_not(bad))
    return poly(int_f(f, v, toE(m1), toE(m2)).scale(toE(c)), KX)


def gen10(r):
    return tuple(r.randint(0, 3) if i == 1 else r.randint(-1, 3) for i in range(10))


Unit(X + 'int_e_s_poly', lambda it: ([R('c'), I('tp'), I('m1'), I('m2'), P('P', S10, keyfor=KX, dom=lambda k: [ge(k[1], 0)])], [ge(I('m2'), 0)]),
     gen={'P': gen10}, ranges={'tp': (0, 5), 'm1': (-2, 3), 'm2': (0, 3)}, keyshape=S10)


def kmul(k, f):
    return f.mapkey(lambda q: (q[0] + k[0], q[1] + k[1], q[2] + k[4], q[3], q[4], q[5]) + tuple(q[6 + j] + k[5 + j] for j in range(4)))


@contract(X + 'key_times_poly')
def key_times_poly(it, k, p):
    return poly(kmul(k, it.getf(p)), KX)


Unit(X + 'key_times_poly', lambda it: ([tuple(I(f'k{i}') for i in range(9)), P('P', S10, keyfor=KX)], []), keyshape=S10)


def rhs(get, z, *n):
    n = [toE(x) for x in n]
    bs, is_ = [], []
    for j in (3, 4, 5):
        b = symbase(fresh('i'), True)
        bs.append(b)
        is_.append(E.base(b))
    dom = [ge(i, 0) for i in is_] + [ge(n[3 + j], is_[j]) for j in range(3)]

    def part(i):
        def one(k):
            r = FZERO
            for coef, guard, idx, m0, m1 in ito_pairs(*n[:3]):
                if any(g.op == 'false' for g in guard):
                    continue
                w = k[2] + m1
                f = get(*idx, *i)
                a = int_f(f, 1, w - 1, k[3]) + int_f(f, 2, w, k[3]) + int_f(get(idx[0] + 1, idx[1], idx[2], *i), 3, w - 1, k[3]) \
                    + int_f(get(*idx, i[0] + 1, i[1], i[2]), 4, w - 1, k[3])
                r = r + a.scale(coef).guard(*guard)
            return kmul(k, r)
        c = binom(n[3], i[0]) * binom(n[4], i[1]) * binom(n[5], i[2])
        return bind_over(expand_f(z(n[3] - i[0], n[4] - i[1], n[5] - i[2])), one).scale(c)
    if all(x.is_const() for x in n[3:]):
        import itertools
        return psum(*[part([E.const(y) for y in c]) for c in itertools.product(*[range(int(x.cval()) + 1) for x in n[3:]])])
    return F(Term(t.pb, tuple(bs) + t.ib, tuple(dom) + t.dom, t.coef, t.key) for t in part(is_).ts)


def MX(*n):
    return fatom('M_IEIZ', tuple(toE(x) for x in n), S10)


def def_M(args):
    if not const_all(args):
        return None
    n = [int(a.cval()) for a in args]
    if min(n) < 0:
        return FZERO
    if sum(n[:3]) == 0:
        return conv_f(zz(*n[3:]))
    return rhs(MX, zz, *n)


def inv_M(k, args):
    return [ge(k[1], 0), ge(k[3], 0), c_eq(mod2(args[2]), ZERO)]


inv_M.with_args = True
DEFS['M_IEIZ'] = def_M
ATOM_INV['M_IEIZ'] = inv_M
U.NONNEG_AT['M_IEIZ'] = (1, 3)
ATOM_REAL['M_IEIZ'] = real_poly(X + 'moment_ieii_ieziziz')
UNFOLD['M_IEIZ'] = lambda *n: [(c_and(*nonneg_all(n), ge(n[0] + n[1] + n[2], 1)), rhs(MX, zz, *n)),
                               (c_and(*nonneg_all(n), c_eq(n[0] + n[1] + n[2], ZERO)), conv_f(zz(*n[3:])))]
TAB = {'atom': 'M_IEIZ', 'shape': S10, 'keyfor': KX, 'arity': 6}
N6 = tuple(f'n{i}' for i in range(1, 7))


def below(*n):
    def region(idx):
        return c_and(*nonneg_all(idx), c_le(psum_e(idx), psum_e(n) - 1))
    return region


@contract(X + 'recursive_ieii_ieziziz')
def recursive(it, *a):
    n, tab = [toE(x) for x in a[:6]], a[6]
    if it.branch(c_and(*[c_eq(x, ZERO) for x in n[:3]])):
        return poly(conv_f(zz(*n[3:])), KX)
    t = as_table(it, tab)
    i = [Sym(fresh('i'), True) for _ in range(3)]
    inside = [ge(x, 0) for x in i] + [ge(n[3 + j], i[j]) for j in range(3)]
    for coef, guard, idx, m0, m1 in ito_pairs(*n[:3]):
        pc = list(it.pc) + inside + list(guard)
        if not feasible(pc):
            continue
        for q in ((*idx, *i), (idx[0] + 1, idx[1], idx[2], *i), (*idx, i[0] + 1, i[1], i[2])):
            if not valid(pc, t.region(tuple(toE(x) for x in q))):
                raise Undecided(f'order {q!r} may be missing from the table')
    return poly(rhs(lambda *q: t.value(it, tuple(toE(x) for x in q)).f, zz, *n), KX)


def setup_rec(it):
    n = [I(x) for x in N6]
    return n + [remade(dict(TAB, atom='M_IEIZ_table'), below, *n)], nonneg(*N6)


ATOM_INV['M_IEIZ_table'] = inv_M
REF = dict(ranges={x: (0, 2) for x in N6[:3]} | {x: (0, 1) for x in N6[3:]}, keyshape=S10)
Unit(X + 'recursive_ieii_ieziziz', setup_rec, opts={'ifmerge': True}, gen={'M_IEIZ_table': gen10}, tries=6, cost=9, **REF)


@contract(X + 'moment_ieii_ieziziz')
def moment(it, *n):
    n = [toE(x) for x in n]
    if it.branch(c_not(c_and(*nonneg_all(n)))):
        raise PyRaise('ValueError')
    return poly(MX(*n), KX)


Unit(X + 'moment_ieii_ieziziz', lambda it: ([I(x) for x in N6], []), opts={'table': [TAB]}, tries=6, cost=9, **REF)


# ---- the return given v0
#   y = (mu - theta/2) t + (v0-theta)(e^{-kt} - 1)/(2k) + (sigma/2k) e^{-kt} IE + (rho - sigma/2k) I + sqrt(1-rho^2) I*
#       + e^{-kt}/(2k) IEZ + (rhoJ - 1/(2k)) IZ + IZS
KB = ('e^{kt}', 't', 'k^{-}', 'mu', 'v0-theta', 'theta', 'sigma', 'rho', 'sqrt(1-rho^2)', 'lmbd', 'mu_v', 'rhoJ', 'mu_s', 'sigma_s')
KY = KB[:8] + KB[9:]
S14, S13 = 'i' * 14, 'i' * 13
H = Fraction(1, 2)


def mono14(**d):
    return tuple(d.get(x, 0) for x in ('e', 't', 'k', 'mu', 'v', 'th', 's', 'r', 'q', 'l', 'm', 'R', 'ms', 'ss'))


PARTS = [[(H, mono14(e=-1, k=1, s=1))],
         [(1, mono14(r=1)), (-H, mono14(k=1, s=1))],
         [(1, mono14(q=1))],
         [(H, mono14(e=-1, k=1))],
         [(1, mono14(R=1)), (-H, mono14(k=1))],
         [(1, mono14())],
         [(1, mono14(t=1, mu=1)), (-H, mono14(t=1, th=1))],
         [(H, mono14(e=-1, k=1, v=1)), (-H, mono14(k=1, v=1))]]


def bn_(*n):
    return prodf([mpow(p, x) for p, x in zip(PARTS, n)])


bn = defined('bn_svcj', S14, bn_)
facts('bn_svcj', (1, 3, 4), {8: lambda *n: n[2], 4: lambda *n: n[7]})
N8 = tuple(f'n{i}' for i in range(1, 9))


@contract(CMM + 'b_n')
def b_n(it, *n):
    need_nonneg(it, *n)
    return poly(bn(*n), KB)


Unit(CMM + 'b_n', lambda it: ([I(x) for x in N8], nonneg(*N8)), ranges={x: (0, 2) for x in N8}, goal=def_goal('bn_svcj'))


@contract(CMM + 'enlarge')
def enlarge(it, p, kf):
    new = it.iter_concrete(kf)
    if new is None or p.keyfor is None or isinstance(p.keyfor, StrSeq):
        raise Undecided('enlarge: variable names')
    new, old = list(new), list(p.keyfor)
    if any(x not in new for x in old):
        raise PyRaise('ValueError')
    pos = [new.index(x) for x in old]
    if len(set(pos)) != len(pos):
        raise Undecided('enlarge: repeated names')
    return poly(it.getf(p).mapkey(lambda k: tuple(k[pos.index(j)] if j in pos else ZERO for j in range(len(new)))), new)


for a, b in ((KX, KB), (('a',), ('b', 'a')), (('a', 'b', 'c'), ('c', 'd', 'b', 'a')), (('a', 'b'), ('a', 'b')), (('a', 'b'), ('a', 'c'))):
    Unit(CMM + 'enlarge', (lambda a, b: lambda it: ([P('P', 'i' * len(a), keyfor=a), ListV(list(b))], []))(a, b), variant=f'{len(a)} variables into {len(b)}: {b[0]}',
         bounded=f'these variable lists: {len(a)} into {len(b)}')


@contract(CMM + 'expand_sqrt')
def expand_sqrt(it, p):
    f = it.getf(p)
    for t in f.ts:
        pc = list(it.pc) + list(t.dom) + inv_conds(t.pb)
        if not feasible(pc):
            continue
        if not valid(pc, ge(t.key[8], 0)):
            raise Undecided('expand_sqrt: negative exponent')
        odd = c_not(c_eq(mod2(t.key[8]), ZERO))
        if feasible(pc + [odd]):
            it.frames[-1].raises.append((t.pb, t.ib, t.dom + (odd,), 'Exception'))
    return poly(rho_f(f, 8), KY)


def gen14(r):
    return tuple(r.choice((0, 2, 2, 4, 4, 1) if r.random() < .3 else (0, 2, 4)) if i == 8 else r.randint(-1, 3) for i in range(14))


Unit(CMM + 'expand_sqrt', lambda it: ([P('P', S14, keyfor=KB, dom=lambda k: [ge(k[8], 0)])], []), gen={'P': gen14}, keyshape=S13)


def ysq(n):
    """with sqrt(1-rho^2) kept"""
    return over_splits(n, 8, lambda n, s: fplus(embed(MX(*s[:6]), [0, 1, 2, -1, 3, 4, 5, -1, -1, 6, 7, -1, 8, 9]), bn(*s)).scale(multinom(n, s)))


def yc_(n):
    n = toE(n)
    if n.is_const() and n.cval() == 0:
        return fmono(ONE, (ZERO,) * 13)
    return rho_f(ysq(n), 8)


yc = defined('Yc_svcj', S13, yc_, inv=lambda k, a: [ge(k[4], 0)])


@contract(CMM + 'moment_y')
def moment_yc(it, n):
    if it.branch(c_lt(n, ZERO)):
        raise PyRaise('ValueError')
    return poly(yc(n), KY)


Unit(CMM + 'moment_y', lambda it: ([I('n')], []), ranges={'n': (-1, 2)}, tries=6, goal=def_goal('Yc_svcj'), keyshape=S13)


def central(get, n):
    """E[(y - E y)^n] = SUM C(n,i) (-1)^i (E y)^i E[y^(n-i)], get(j) = (atom name, args)"""
    name = get
    b = symbase(fresh('i'), True)
    i = E.base(b)
    f = fplus(fatom('pow', (PAtom(name, (ONE,), S13), i), S13), fatom(name, (n - i,), S13)).scale(binom(n, i) * powE(-ONE, i))
    return fatom(name, (n,), S13) + F(Term(t.pb, (b,) + t.ib, (c_le(ONE, i), c_le(i, n)) + t.dom, t.coef, t.key) for t in f.ts)


@contract(CCM + 'cmoment_y')
def cmoment_yc(it, n):
    if it.branch(c_lt(n, ZERO)):
        raise PyRaise('ValueError')
    if it.branch(c_eq(n, ZERO)):
        return poly(fmono(ONE, (ZERO,) * 13), KY)
    return poly(central('Yc_svcj', toE(n)), KY)


Unit(CCM + 'cmoment_y', lambda it: ([I('n')], []), ranges={'n': (-1, 2)}, tries=6, keyshape=S13)

# ---- under the stationary law
KS = KY[:4] + ('E[v]',) + KY[5:]


def vt_(n):
    """E[(v - theta)^n], E[v] - theta = lmbd mu_v / k"""
    return over_splits(n, 2, lambda n, s: UM(s[0]).mapkey(lambda k: (k[0] + s[1], k[1], k[2], k[3] + s[1], k[4] + s[1])).scale(multinom(n, s)))


vt = defined('VT_svcj', 'iiiii', vt_)


@contract(MM + 'moment_v_theta')
def moment_v_theta(it, n):
    need_nonneg(it, n)
    return poly(vt(n), KU)


Unit(MM + 'moment_v_theta', lambda it: ([I('n')], nonneg('n')), ranges={'n': (0, 4)}, tries=6, keyshape='iiiii', goal=def_goal('VT_svcj'))


def kmul13(k, f):
    return f.mapkey(lambda K: (k[0], k[1], k[2] + K[0], k[3], K[1], k[5], k[6] + K[2], k[7], k[8] + K[3], k[9] + K[4], k[10], k[11], k[12]))


@contract(MM + 'key_times_poly')
def key_times_poly13(it, c, k, p):
    return poly(kmul13(k, it.getf(p)).scale(toE(c)), KS)


Unit(MM + 'key_times_poly', lambda it: ([R('c'), tuple(I(f'k{i}') for i in range(13)), P('P', 'iiiii', keyfor=KU)], []), keyshape=S13)


def ys_(n):
    return bind_over(yc(n), lambda k: kmul13(k, vt(k[4])))


ys = defined('Ys_svcj', S13, ys_)


@contract(MM + 'moment_y')
def moment_ys(it, n):
    if it.branch(c_lt(n, ZERO)):
        raise PyRaise('ValueError')
    return poly(ys(n), KS)


Unit(MM + 'moment_y', lambda it: ([I('n')], []), ranges={'n': (-1, 2)}, tries=6, keyshape=S13, goal=def_goal('Ys_svcj'))


@contract(CM + 'cmoment_y')
def cmoment_ys(it, n):
    if it.branch(c_lt(n, ZERO)):
        raise PyRaise('ValueError')
    if it.branch(c_eq(n, ZERO)):
        return poly(fmono(ONE, (ZERO,) * 13), KS)
    if it.branch(c_eq(n, ONE)):
        return poly(FZERO, KS)
    return poly(central('Ys_svcj', toE(n)), KS)


Unit(CM + 'cmoment_y', lambda it: ([I('n')], []), ranges={'n': (-1, 2)}, tries=6, keyshape=S13)

# ---- remove_mu_column: drops the (absent) powers of mu and switches the sign of the exponential
KN = ('e^{-kt}', 't', 'k^{-}') + KS[4:]


@contract(CM + 'remove_mu_column')
def remove_mu_column(it, p):
    f = it.getf(p)
    for t in f.ts:
        pc = list(it.pc) + list(t.dom) + inv_conds(t.pb)
        odd = c_not(c_eq(t.key[3], ZERO))
        if feasible(pc + [odd]):
            it.frames[-1].raises.append((t.pb, t.ib, t.dom + (odd,), 'Exception'))
    return poly(F(Term(t.pb, t.ib, t.dom + (c_eq(t.key[3], ZERO),), t.coef, (-t.key[0],) + tuple(t.key[1:3]) + tuple(t.key[4:])) for t in f.ts), KN)


def gen_mu(r):
    return tuple((1 if r.random() < .1 else 0) if i == 3 else r.randint(-2, 3) for i in range(13))


Unit(CM + 'remove_mu_column', lambda it: ([P('P', S13, keyfor=KS, may_change=True)], []), gen={'P': gen_mu}, keyshape='i' * 12)


from . import enlarge as _enlarge       # noqa: enlarge for any two lists of variables (replaces the units of fixed lists above)
