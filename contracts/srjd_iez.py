"""mdl_srjd.iez_mom, iez_cmom: IEZ = sum over the jumps in (s,t] of e^{k s_i} J_i, exponential jumps, uniform jump times.

With U uniform on (s,t) and J exponential of mean mu_v:  E[(e^{kU} J)^n] = n! mu_v^n (e^{nkt} - e^{nks}) / (n k (t-s)),  n >= 1.
The moments of the compound sum follow from its generating function exp(lmbd (t-s) (M(a) - 1)) as in cpp_mom."""
from .base import *
from . import cpp_mom
from .cpp_mom import SHJ, JP, need_order

M, C = 'ajdmom.mdl_srjd.iez_mom.', 'ajdmom.mdl_srjd.iez_cmom.'
KE = ('e^{kt}', 'e^{ks}', 't-s', 'k^{-}', 'mu_v')
KZ = ('e^{kt}', 'e^{ks}', 'k^{-}', 'lmbd', 'mu_v')


def ej_(n):
    n = toE(n)
    one = fmono(ONE, (ZERO,) * 5).guard(c_eq(n, ZERO))
    if n.is_const() and n.cval() < 1:
        return one
    two = fmono(FactE(n - 1), (n, ZERO, -ONE, ONE, n)) - fmono(FactE(n - 1), (ZERO, n, -ONE, ONE, n))
    return one + two.guard(ge(n, 1))


ej = defined('EJ', 'iiiii', ej_)
facts('EJ', (0, 1), {2: lambda n: -ind(ge(n, 1))})


@contract(M + 'moment_EJ')
def moment_EJ(it, n):
    need_order(it, n)
    return poly(ej(n), KE)


Unit(M + 'moment_EJ', lambda it: ([I('n')], []), ranges={'n': (-2, 6)}, keyshape='iiiii')


def decode_f(f):
    def one(k):
        L = blen(k[1])
        g = prod_atom(L, PAtom('pow', (PAtom('EJ', (bat(k[1], E.base(IDX), 0),), 'iiiii'), bat(k[1], E.base(IDX), 2)), 'iiiii'))
        return g.mapkey(lambda q: (q[0], q[1], q[3], k[0], q[4]))
    return bind_over(f, one)


@contract(M + 'decode')
def decode(it, p):
    return poly(decode_f(it.getf(p)), KZ)


def JPS(name):
    p = JP(name, 0)
    t = p.f.ts[0]
    p.f = F((Term(t.pb, t.ib, t.dom + (c_eq(t.key[0], bsum(t.key[1])),), t.coef, t.key),))
    return p


def gen_j(rnd):
    k = flatJ((0, gen_comp('J', rnd)))
    return (sum(m for _, m in k[1:]),) + k[1:]


Unit(M + 'decode', lambda it: ([JPS('P')], []), keyshape='iiiii', gen={'P': gen_j}, tries=15)


def iez_(n):
    n = toE(n)
    if n.is_const() and n.cval() <= 0:
        return fmono(ONE, (ZERO,) * 5).guard(c_eq(n, ZERO))
    if n.is_const() and n.cval() == 1:
        return fmono(ONE, (ONE, ZERO, ONE, ONE, ONE)) - fmono(ONE, (ZERO, ONE, ONE, ONE, ONE))
    return decode_f(fatom('Cpp', (n,), SHJ))


iez = defined('IEZ', 'iiiii', iez_)
facts('IEZ', (0, 1))
U.ATOM_INV['Cpp'] = (lambda g: (lambda f: (setattr(f, 'with_args', True), f)[1])(lambda k, a: g(k, a) + [c_eq(k[0], bsum(k[1]))]))(U.ATOM_INV['Cpp'])


@contract(M + 'moment_IEZ')
def moment_IEZ(it, n):
    need_order(it, n)
    return poly(iez(n), KZ)


LC = {'list': {'atom': 'Cpp', 'shape': SHJ, 'keyfor': None}}
Unit(M + 'moment_IEZ', lambda it: ([I('n')], []), opts=LC, ranges={'n': (-2, 6)}, tries=12)


def ciez_(n):
    n = toE(n)
    if n.is_const() and n.cval() <= 0:
        return fmono(ONE, (ZERO,) * 5).guard(c_eq(n, ZERO))
    if n.is_const() and n.cval() == 1:
        return FZERO
    b = symbase(fresh('i'), True)
    i = E.base(b)
    f = fplus(fatom('pow', (PAtom('IEZ', (ONE,), 'iiiii'), i), 'iiiii'), iez(n - i)).scale(binom(n, i) * powE(-ONE, i))
    return iez(n) + F(Term(t.pb, (b,) + t.ib, (c_le(ONE, i), c_le(i, n)) + t.dom, t.coef, t.key) for t in f.ts)


ciez = defined('cIEZ', 'iiiii', ciez_)
facts('cIEZ', (0, 1))


@contract(C + 'cmoment_IEZ')
def cmoment_IEZ(it, n):
    need_order(it, n)
    return poly(ciez(n), KZ)


Unit(C + 'cmoment_IEZ', lambda it: ([I('n')], []), ranges={'n': (-2, 5)}, tries=12)
