"""mdl_svcj.ieziziz_mom: joint moments of the three jump sums over (s,t]:
    IEZ = SUM e^{k s_i} J_i, IZ = SUM J_i, IZS = SUM J^s_i,   J exponential (mean mu_v), J^s normal, s_i uniform, all independent.

One jump: E[(e^{kU}J)^n1 J^n2 (J^s)^n3] = (n1+n2)! mu_v^(n1+n2) E[(J^s)^n3] (e^{n1kt} - e^{n1ks})/(n1 k (t-s))   (n1 = 0: without the last
factor).  The generating function is exp(lmbd (t-s) (M(a1,a2,a3) - 1)); keys (i, (n1,n2,n3,m), ...) denote
(lmbd (t-s))^i PRODUCT (d^(n1,n2,n3) M)^m."""
from .base import *
from engine.tables import *
from . import cpp_mom

M = 'ajdmom.mdl_svcj.ieziziz_mom.'
KZ = ('e^{kt}', 'e^{ks}', 't-s', 'k^{-}', 'lmbd', 'mu_v', 'mu_s', 'sigma_s')
S8 = 'i' * 8
SHQ = ('i', 'Q')


def need_orders(it, *n):
    if it.branch(c_not(c_and(*[ge(x, 0) for x in n]))):
        raise PyRaise('ValueError')


def zj_(n1, n2, n3):
    n1, n2, n3 = toE(n1), toE(n2), toE(n3)

    def with_s(f):
        def one(k):
            return f.mapkey(lambda q: tuple(q) + (k[0], 2 * k[1]))
        return bind_over(fatom('N', (n3,), 'ii'), one)
    r = FZERO
    if not (n1.is_const() and n1.cval() >= 1):
        r = r + with_s(fmono(FactE(n2), (ZERO,) * 5 + (n2,))).guard(c_eq(n1, ZERO))
    if not (n1.is_const() and n1.cval() < 1):
        two = fmono(FactE(n1 + n2) / n1, (n1, ZERO, -ONE, ONE, ZERO, n1 + n2)) - fmono(FactE(n1 + n2) / n1, (ZERO, n1, -ONE, ONE, ZERO, n1 + n2))
        r = r + with_s(two).guard(ge(n1, 1))
    return r


zj = defined('EJJJ', S8, zj_)
facts('EJJJ', (0, 1), {4: lambda *n: ZERO})
LOWER_AT['EJJJ'] = {2: -1}


@contract(M + 'moment_ejjj')
def moment_ejjj(it, n1, n2, n3):
    need_orders(it, n1, n2, n3)
    return poly(zj(n1, n2, n3), KZ)


N3 = ('n1', 'n2', 'n3')
Unit(M + 'moment_ejjj', lambda it: ([I(x) for x in N3], []), ranges={x: (-1, 3) for x in N3}, keyshape=S8, goal=def_goal('EJJJ'))


# ---- differentiation of the generating function
def S1(n, m):
    return Bag((), ((tuple(n), ZERO, m),))


UNIT = {1: (ONE, ZERO, ZERO), 2: (ZERO, ONE, ZERO), 3: (ZERO, ZERO, ONE)}


def d1key(k, w):
    return (k[0] + 1, k[1].mul(S1(UNIT[w], ONE)))


def dlater(key, coef, w):
    b = symbase(fresh('j'), True)
    j = E.base(b)
    n = tuple(bat(key[1], j, c) for c in (3, 4, 5))
    m = bat(key[1], j, 2)
    up = tuple(x + y for x, y in zip(n, UNIT[w]))
    return F((Term((), (b,), (c_le(ZERO, j), c_lt(j, blen(key[1]))), coef * m, (key[0], key[1].mul(S1(up, ONE)).mul(S1(n, -ONE)))),))


def D(f, w):
    return f.mapkey(lambda k: d1key(k, w)) + bind_over(f, lambda k: dlater(k, ONE, w))


def which(it, wrt):
    for v in (1, 2):
        if it.branch(c_eq(toE(wrt), E.const(v))):
            return v
    return 3


def jpoly_key():
    return BagSeq((I('key0'),), Bag((Base('Q', 'key'),), ()), 4, 0)


@contract(M + 'd1_times_key')
def d1_times_key(it, key, wrt):
    w = which(it, wrt)
    k = it.askey(key)
    r = BagSeq((k[0] + 1,), k[1].mul(S1(UNIT[w], ONE)), 4, it.depth)
    it.fact(ge(r.n, 1))
    return r


def goal_key(unit, it, args, out):
    k = it.askey(args[0])
    w = which(it, args[1])
    if out.kind != 'value' or not isinstance(out.value, BagSeq):
        raise Fail('not a key', model_of(it.pc))
    g = it.askey(out.value)
    if not (valid(it.pc, c_eq(g[0], k[0] + 1)) and bag_same(it, g[1], k[1].mul(S1(UNIT[w], ONE)))):
        raise Fail('key of the term times the derivative of lmbd (t-s) M', model_of(it.pc))


def csetup_key(it):
    from .cpp_mom import lit_key
    it.rkey = flatJ((it.rnd.randint(0, 3), gen_comp('Q', it.rnd)))
    if it.rnd.random() < .4:
        w = {1: (1, 0, 0), 2: (0, 1, 0), 3: (0, 0, 1)}[it.rnd.randint(1, 3)]
        if w not in [x[:3] for x in it.rkey[1:]]:
            it.rkey += (w + (it.rnd.randint(1, 2),),)
    return [lit_key(it.rkey), E.const(it.rnd.randint(1, 3))], []


def lit_bag(key):
    return (key[0], Bag((), tuple((tuple(p[:3]), ZERO, p[3]) for p in key[1:])))


def spec_d1(it, key, wrt):
    return PolyV(fmono(ONE, d1key(lit_bag(key), which(it, wrt))), None)


def one_term(fn):
    def run(*a):
        from engine import concrete as cc
        return cc.real('ajdmom.poly.Poly')({cc.real(fn)(*a): 1})
    return run


def setup_key(*more):
    def s(it):
        k = jpoly_key()
        return [k, *more, I('wrt')], [ge(k.n, 1), ge(I('wrt'), 1), c_le(I('wrt'), E.const(3))]
    return s


Unit(M + 'd1_times_key', setup_key(), goal=goal_key, spec=spec_d1, csetup=csetup_key, real_call=one_term(M + 'd1_times_key'), keyshape=SHQ)


@contract(M + 'dterm')
def dterm(it, key, coef, wrt):
    w = which(it, wrt)
    return PolyV(dlater(it.askey(key), coef, w), (), it.depth)


def spec_dterm(it, key, coef, wrt):
    return PolyV(dlater(lit_bag(key) if isinstance(key, tuple) else it.askey(key), coef, which(it, wrt)), ())


def cs_dterm(it):
    (k, w), r = csetup_key(it)
    return [k, R('c'), w], r


Unit(M + 'dterm', setup_key(R('c')), spec=spec_dterm, csetup=cs_dterm, keyshape=SHQ)


def QP(name, minlen=1, shifted=False):
    f = fatom(name, (), SHQ)
    t = f.ts[0]
    dom = (ge(blen(t.key[1]), minlen),) + ((c_eq(t.key[0], bsum(t.key[1])),) if shifted else ())
    return PolyV(F((Term(t.pb, t.ib, dom, t.coef, t.key),)), (), 0, name=name, param=True)


@contract(M + 'dmgf_ieziziz')
def dmgf(it, p, wrt):
    return PolyV(D(it.getf(p), which(it, wrt)), (), it.depth)


Unit(M + 'dmgf_ieziziz', lambda it: ([QP('P'), I('wrt')], [ge(I('wrt'), 1), c_le(I('wrt'), E.const(3))]), ranges={'wrt': (1, 3)}, keyshape=SHQ)


# ---- the moments of one jump put in
def decode_f(f):
    def one(k):
        b = k[1]
        at = PAtom('EJJJ', tuple(bat(b, E.base(IDX), c) for c in (3, 4, 5)), S8)
        g = prod_atom(blen(b), PAtom('pow', (at, bat(b, E.base(IDX), 2)), S8))
        return g.mapkey(lambda q: (q[0], q[1], q[2] + k[0], q[3], q[4] + k[0]) + tuple(q[5:]))
    return bind_over(f, one)


@contract(M + 'decode')
def decode(it, p):
    return need(poly(decode_f(it.getf(p)), KZ))


def gen_q(rnd):
    k = flatJ((0, gen_comp('Q', rnd)))
    return (sum(x[3] for x in k[1:]),) + k[1:]


Unit(M + 'decode', lambda it: ([QP('P', 0)], []), keyshape=S8, gen={'P': gen_q}, tries=15)


# ---- the table of derivatives
def ZQ(*n):
    return fatom('ZQ', tuple(toE(x) for x in n), SHQ)


def step(n):
    """(condition, wrt, lower order), the first that applies"""
    n1, n2, n3 = n
    return [(ge(n2, 1), 2, (n1, n2 - 1, n3)), (c_and(c_eq(n2, ZERO), ge(n1, 1)), 1, (n1 - 1, n2, n3)),
            (c_and(c_eq(n2, ZERO), c_eq(n1, ZERO), ge(n3, 1)), 3, (n1, n2, n3 - 1))]


def def_ZQ(args):
    if not const_all(args):
        return None
    n = [int(a.cval()) for a in args]
    if min(n) < 0:
        return FZERO
    if sum(n) == 0:
        return fmono(ONE, (ZERO, Bag((), ())))
    if sum(n) == 1:
        return fmono(ONE, (ONE, S1([E.const(x) for x in n], ONE)))
    n = [E.const(x) for x in n]
    for c, w, low in step(n):
        if c.op == 'true':
            return D(ZQ(*low), w)


def inv_ZQ(k, args):
    b = k[1]
    if b.pure() or not b.at:
        return [c_eq(k[0], bsum(b)), c_or(c_le(psum_e(args), ZERO), ge(blen(b), 1))]
    return []


inv_ZQ.with_args = True
DEFS['ZQ'] = def_ZQ
ATOM_INV['ZQ'] = inv_ZQ
UNFOLD['ZQ'] = lambda *n: [(c_and(*[ge(x, 0) for x in n], ge(psum_e(n), 2), c), D(ZQ(*low), w)) for c, w, low in step(n)]


def real_ZQ(*n):
    d = {(0,): 1}
    for w in [0] * n[0] + [1] * n[1] + [2] * n[2]:
        e = {}
        u = tuple(int(i == w) for i in range(3))
        for k, c in d.items():
            out = [(((u, 1),), k[0] + 1, c)]
            for x in k[1:]:
                out.append((((tuple(a + b for a, b in zip(x[:3], u)), 1), (x[:3], -1)), k[0], c * x[3]))
            for ch, i, cc_ in out:
                r = {x[:3]: x[3] for x in k[1:]}
                for l, m in ch:
                    r[l] = r.get(l, 0) + m
                q = (i,) + tuple(sorted(l + (m,) for l, m in r.items() if m))
                e[q] = e.get(q, 0) + cc_
        d = e
    return d


ATOM_REAL['ZQ'] = real_ZQ
TAB = {'atom': 'ZQ', 'shape': SHQ, 'keyfor': None, 'arity': 3}


LOW = {(0, 0, 0): fmono(ONE, (ZERO,) * 8),
       (1, 0, 0): fmono(ONE, (ONE, ZERO, ZERO, ONE, ONE, ONE, ZERO, ZERO)) - fmono(ONE, (ZERO, ONE, ZERO, ONE, ONE, ONE, ZERO, ZERO)),
       (0, 1, 0): fmono(ONE, (ZERO, ZERO, ONE, ZERO, ONE, ONE, ZERO, ZERO)),
       (0, 0, 1): fmono(ONE, (ZERO, ZERO, ONE, ZERO, ONE, ZERO, ONE, ZERO))}


def lit_zzz(n):
    """explicit value for literal orders (None: none)"""
    if not const_all(n):
        return None
    c = tuple(int(x.cval()) for x in n)
    return FZERO if min(c) < 0 else LOW.get(c)


def zzz_(*n):
    n = [toE(x) for x in n]
    if const_all(n):
        r = lit_zzz(n)
        return decode_f(ZQ(*n)) if r is None else r
    r = FZERO
    for c, f in LOW.items():
        r = r + f.guard(*[c_eq(x, E.const(y)) for x, y in zip(n, c)])
    for c, w, lo in step(n):                # ZQ(n) by its defining equation
        r = r + decode_f(D(ZQ(*lo), w)).guard(*[ge(x, 0) for x in n], ge(psum_e(n), 2), c)
    return r


zzz = defined('ZZZ', S8, zzz_)
facts('ZZZ', (0, 1, 2))
DEFS['ZZZ'] = lit_zzz


def nonzero(p):
    """lemma: a joint moment of the jump sums is not the zero function (it is positive for mu_s, mu_v, lmbd > 0), hence not the empty polynomial"""
    p.nonempty = p.f
    return p


@contract(M + 'moment_ieziziz')
def moment_ieziziz(it, n1, n2, n3):
    need_orders(it, n1, n2, n3)
    return nonzero(poly(zzz(n1, n2, n3), KZ))


Unit(M + 'moment_ieziziz', lambda it: ([I(x) for x in N3], []), opts={'table': [TAB]}, ranges={x: (-1, 2) for x in N3}, keyshape=S8, goal=def_goal('ZZZ'), tries=8)
