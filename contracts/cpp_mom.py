"""cpp_mom: moments of normal variables and of compound Poisson sums, by repeated differentiation of the generating function.

Keys (i, (n1, m1), ..., (nl, ml)) denote (lambda h)^i * PRODUCT M_J^(n)(s)^m: a map n -> m (a Bag of kind J)."""
from .base import *
from engine.tables import *

M = 'ajdmom.cpp_mom.'
KN = ('mu', 'sigma^2')
KO = ('lambda*h', 'mu', 'sigma^2')
KC = ('lambda*h', 'mu', 'sigma')


# ---- normal moments: N_0 = 1, N_{n+1} = (mu + sigma^2 d/dmu) N_n
def dnorm(f):
    g = F(Term(t.pb, t.ib, t.dom, t.coef * t.key[0], (t.key[0] - 1, t.key[1] + 1)) for t in f.ts)
    return f.mapkey(lambda k: (k[0] + 1, k[1])) + g


def def_N(args):
    if not const_all(args):
        return None
    n = int(args[0].cval())
    return FZERO if n < 0 else fmono(ONE, (ZERO, ZERO)) if n == 0 else dnorm(fatom('N', (E.const(n - 1),), 'ii'))


DEFS['N'] = def_N
UNFOLD['N'] = lambda n: (ge(n, 1), dnorm(fatom('N', (n - 1,), 'ii')))
ATOM_REAL['N'] = real_poly(M + 'mnorm')
ATOM_INV['N'] = lambda k: [ge(k[0], 0)]


@contract(M + 'dmgf')
def dmgf(it, p):
    return poly(dnorm(it.getf(p)), KN)


Unit(M + 'dmgf', lambda it: ([P('P', 'ii', dom=lambda k: [ge(k[0], 0)])], []),
     gen={'P': lambda r: (r.randint(0, 4), r.randint(0, 4))}, keyshape='ii')


def need_order(it, n):
    if it.branch(c_lt(n, ZERO)):
        raise PyRaise('ValueError')


@contract(M + 'mnorm')
def mnorm(it, n):
    need_order(it, n)
    return atom_poly('N', (n,), 'ii', KN)


Unit(M + 'mnorm', lambda it: ([I('n')], []), opts={'list': {'atom': 'N', 'shape': 'ii', 'keyfor': KN}}, ranges={'n': (-2, 14)})


# ---- generating function of the compound Poisson sum
def S1(n, m):
    return Bag((), ((n, ZERO, m),))


def d1(f):
    """times lambda h M_J'"""
    return f.mapkey(lambda k: (k[0] + 1, k[1].mul(S1(ONE, ONE))))


def dlater(key, coef):
    """SUM over the factors M_J^(n)^m of  m * M_J^(n+1) / M_J^(n) * the term"""
    b = symbase(fresh('j'), True)
    j = E.base(b)
    n, m = bat(key[1], j, 0), bat(key[1], j, 2)
    return F((Term((), (b,), (c_le(ZERO, j), c_lt(j, blen(key[1]))), coef * m,
                   (key[0], key[1].mul(S1(n + 1, ONE)).mul(S1(n, -ONE)))),))


def D(f):
    return d1(f) + bind_over(f, lambda k: dlater(k, ONE))


SHJ = ('i', 'J')


def inv_c(key, args):
    b = key[1]
    if b.pure() or not b.at:
        return [c_or(c_le(args[0], ZERO), ge(blen(b), 1))]
    return []


inv_c.with_args = True


def def_C(args):
    if not const_all(args):
        return None
    n = int(args[0].cval())
    return FZERO if n < 0 else fmono(ONE, (ZERO, Bag((), ()))) if n == 0 else D(fatom('Cpp', (E.const(n - 1),), SHJ)) if n > 1 else \
        fmono(ONE, (ONE, S1(ONE, ONE)))


DEFS['Cpp'] = def_C
UNFOLD['Cpp'] = lambda n: (ge(n, 2), D(fatom('Cpp', (n - 1,), SHJ)))
ATOM_INV['Cpp'] = inv_c


def real_C(n):
    d = {(0,): 1}
    for _ in range(n):
        e = {}
        for k, c in d.items():
            for kk, cc in [((k[0] + 1,) + k[1:] + ((1, 1),), c)] + \
                    [(k + ((nn + 1, 1), (nn, -1)), c * mm) for nn, mm in k[1:]]:
                r = {}
                for nn, mm in kk[1:]:
                    r[nn] = r.get(nn, 0) + mm
                q = (kk[0],) + tuple(sorted((a, b) for a, b in r.items() if b))
                e[q] = e.get(q, 0) + cc
        d = e
    return d


ATOM_REAL['Cpp'] = real_C


def jkey(it, key):
    return it.askey(key)


def jpoly_key(env_name='key'):
    b = Base('J', env_name)
    return BagSeq((I(env_name + '0'),), Bag((b,), ()), 2, 0)


class JKey:
    """concrete flat key for the run-time check"""
    def to_real(self, env):
        return flatJ((env.rnd.randint(0, 3), gen_comp('J', env.rnd)))


def setup_key(it):
    k = jpoly_key()
    return k, [ge(k.n, 1)]


@contract(M + 'd1_times_key')
def d1_times_key(it, key):
    k = jkey(it, key)
    r = BagSeq((k[0] + 1,), k[1].mul(S1(ONE, ONE)), 2, it.depth)
    it.fact(ge(r.n, 1))
    return r


def goal_key(unit, it, args, out):
    k = it.askey(args[0])
    if out.kind != 'value' or not isinstance(out.value, BagSeq):
        raise Fail('not a key', model_of(it.pc))
    g = it.askey(out.value)
    if not (valid(it.pc, c_eq(g[0], k[0] + 1)) and bag_same(it, g[1], k[1].mul(S1(ONE, ONE)))):
        raise Fail('key of the term times lambda*h*M_J\'', model_of(it.pc))


class KeySpec:
    pass


def keys_bag(key):
    d = {}
    for n, m in key[1:]:
        d[n] = d.get(n, 0) + m
    return key[0], {n: m for n, m in d.items() if m}


def cmp_d1(got, exp, env):
    k, h = keys_bag(got), keys_bag(env.rkey)
    h[1][1] = h[1].get(1, 0) + 1
    return None if k == (h[0] + 1, h[1]) else f'{got} from {env.rkey}'


def csetup_key(it):
    it.rkey = flatJ((it.rnd.randint(0, 3), gen_comp('J', it.rnd)))
    return [lit_key(it.rkey)], []


def lit_key(k):
    return tuple(E.const(k[0]) if i == 0 else tuple(E.const(y) for y in x) for i, x in enumerate(k))


def spec_d1_real(it, key):
    """run-time form on a literal key: a polynomial with the single resulting term"""
    h = fmono(ONE, (key[0] + 1, Bag((), tuple((p[0], ZERO, p[1]) for p in key[1:])).mul(S1(ONE, ONE))))
    return PolyV(h, None)


def one_term(fn):
    def run(*a):
        from engine import concrete as cc
        Poly = cc.real('ajdmom.poly.Poly')
        return Poly({cc.real(fn)(*a): 1})
    return run


Unit(M + 'd1_times_key', lambda it: (lambda k, r: ([k], r))(*setup_key(it)), goal=goal_key, spec=spec_d1_real, csetup=csetup_key,
     real_call=one_term(M + 'd1_times_key'), keyshape=SHJ)


@contract(M + 'dterm')
def dterm(it, key, coef):
    return PolyV(dlater(jkey(it, key), coef), (), it.depth)


def spec_dterm(it, key, coef):
    if isinstance(key, tuple):
        key = (key[0], Bag((), tuple((p[0], ZERO, p[1]) for p in key[1:])))
    else:
        key = it.askey(key)
    return PolyV(dlater(key, coef), ())


Unit(M + 'dterm', lambda it: (lambda k, r: ([k, R('c')], r))(*setup_key(it)), spec=spec_dterm,
     csetup=lambda it: ([csetup_key(it)[0][0], R('c')], []), keyshape=SHJ)


@contract(M + 'dmgf_cpp')
def dmgf_cpp(it, p):
    return PolyV(D(it.getf(p)), (), it.depth)


def JP(name, minlen=1):
    f = fatom(name, (), SHJ)
    t = f.ts[0]
    f = F((Term(t.pb, t.ib, (ge(blen(t.key[1]), minlen),), t.coef, t.key),))
    return PolyV(f, (), 0, name=name, param=True)


Unit(M + 'dmgf_cpp', lambda it: ([JP('P')], []), keyshape=SHJ)


# ---- substituting the normal moments
def decode_f(f):
    def one(k):
        L = blen(k[1])
        g = prod_atom(L, PAtom('pow', (PAtom('N', (bat(k[1], E.base(IDX), 0),), 'ii'), bat(k[1], E.base(IDX), 2)), 'ii'))
        return g.mapkey(lambda q: (k[0], q[0], q[1]))
    return bind_over(f, one)


@contract(M + 'decode')
def decode(it, p):
    return need(poly(decode_f(it.getf(p)), KO))


def need(p):
    p.nozero = 'need'
    return p


Unit(M + 'decode', lambda it: ([JP('P', 0)], []), keyshape='iii', tries=15)


def cpp_f(n):
    return decode_f(fatom('Cpp', (n,), SHJ))


@contract(M + 'mcpp_original')
def mcpp_original(it, n):
    need_order(it, n)
    return poly(cpp_f(n), KO)


Unit(M + 'mcpp_original', lambda it: ([I('n')], []), opts={'list': {'atom': 'Cpp', 'shape': SHJ, 'keyfor': None}},
     ranges={'n': (-2, 6)}, tries=12)


def mcpp_f_(n):
    if toE(n).is_const() and toE(n).cval() == 0:
        return fmono(ONE, (ZERO,) * 3)
    if toE(n).is_const() and toE(n).cval() == 1:
        return fmono(ONE, (ONE, ONE, ZERO))
    return cpp_f(n).mapkey(lambda k: (k[0], k[1], 2 * k[2]))


mcpp_f = defined('mcpp', 'iii', mcpp_f_)


@contract(M + 'mcpp')
def mcpp(it, n):
    need_order(it, n)
    return poly(mcpp_f(n), KC)


Unit(M + 'mcpp', lambda it: ([I('n')], []), ranges={'n': (-2, 6)}, tries=12)
Unit(M + 'mcpp', lambda it: ([ZERO], []), tries=1, variant='order 0')
Unit(M + 'mcpp', lambda it: ([ONE], []), tries=1, variant='order 1')


def cmcpp_f_(n):
    if toE(n).is_const() and toE(n).cval() == 0:
        return fmono(ONE, (ZERO,) * 3)
    if toE(n).is_const() and toE(n).cval() == 1:
        return FZERO
    b = symbase(fresh('i'), True)
    i = E.base(b)
    f = mcpp_f(i).mapkey(lambda k: (k[0] + n - i, k[1] + n - i, k[2])).scale(binom(n, i) * powE(E.const(-1), n - i))
    return F(Term(t.pb, (b,) + t.ib, (c_le(ZERO, i), c_le(i, n)) + t.dom, t.coef, t.key) for t in f.ts)


cmcpp_f = defined('cmcpp', 'iii', cmcpp_f_)


@contract(M + 'cmcpp')
def cmcpp(it, n):
    need_order(it, n)
    return need(poly(cmcpp_f(n), KC))


Unit(M + 'cmcpp', lambda it: ([I('n')], []), ranges={'n': (-2, 6)}, tries=12)
Unit(M + 'cmcpp', lambda it: ([ZERO], []), tries=1, variant='order 0')
Unit(M + 'cmcpp', lambda it: ([ONE], []), tries=1, variant='order 1')
