"""shared vocabulary of the contracts"""
from fractions import Fraction
from engine.expr import *
from engine.sums import *
from engine.interp import *
from engine.unit import *
from engine import unit as U
from engine.tables import compositions

HALF = E.const(Fraction(1, 2))


def I(name):
    return Sym(name, True)


def R(name):
    return Sym(name, False)


def P(name, shape, keyfor=None, dom=None, may_change=False, may_alias=False):
    """opaque polynomial parameter; dom(key) = conditions every key satisfies (part of the precondition)"""
    f = fatom(name, (), shape)
    if dom:
        t = f.ts[0]
        f = F((Term(t.pb, t.ib, tuple(dom(t.key)), t.coef, t.key),))
    if keyfor is None:
        keyfor = tuple(StrV(f'{name}_x{i}') for i in range(len(shape)))
    p = PolyV(f, tuple(keyfor), 0, name=name, param=True)
    p.may_change, p.may_alias = may_change, may_alias
    return p


def atom_poly(name, args, shape, keyfor):
    return PolyV(fatom(name, tuple(args), shape), tuple(keyfor) if keyfor is not None else None, 0)


def poly(f, keyfor, nozero=False):
    p = PolyV(f, tuple(keyfor) if keyfor is not None else None, 0)
    p.nozero = nozero
    return p


def psum(*fs):
    r = FZERO
    for f in fs:
        r = r + f
    return r


def frac(a, b):
    return toE(a) / toE(b)


def binom(n, k):
    n, k = toE(n), toE(k)
    return FactE(n) / FactE(k) / FactE(n - k)


def ge(a, b):
    return c_le(toE(b), toE(a))


def gt(a, b):
    return c_lt(toE(b), toE(a))


def real_poly(qual):
    """atom value by running the real function"""
    def fn(*args):
        from engine import concrete as cc
        return dict(cc.real(qual)(*args))
    return fn


def need(p):
    """the contract asks for a result without zero coefficients"""
    p.nozero = 'need'
    return p


def mpow(pieces, n):
    """(SUM coef_i X^key_i)^n by the multinomial theorem"""
    n = toE(n)
    bs = [symbase(fresh('i'), True) for _ in pieces[1:]]
    es = [E.base(b) for b in bs]
    first = n
    for e in es:
        first = first - e
    es = [first] + es
    coef = FactE(n)
    key = [ZERO] * len(pieces[0][1])
    for (c, k), e in zip(pieces, es):
        coef = coef / FactE(e) * powE(E.const(Fraction(c)), e)
        key = [a + toE(b) * e for a, b in zip(key, k)]
    dom = tuple(ge(e, 0) for e in es) if len(es) > 1 else ()
    return F((Term((), tuple(bs), dom, coef, tuple(key)),))


def defined(name, shape, fn, inv=None):
    """a named sum: opaque in larger sums, replaced by its definition fn(*args) where that is needed"""
    U.ATOM_DEF[name] = fn
    if inv is not None:
        def g(k, args):
            return inv(k, args)
        g.with_args = True
        ATOM_INV[name] = g

    def mk(*args):
        return fatom(name, tuple(toE(a) for a in args), shape)
    return mk


def def_goal(name, idx=None):
    """goal of a unit whose contract returns the atom `name`: the result equals the definition and the keys satisfy the invariant"""
    def goal(unit, it, args, out):
        default_goal(unit, it, args, out)
        if out.kind == 'value':
            chk_inv(it, out.value.f, name, 'result', tuple(args if idx is None else [args[i] for i in idx]))
    return goal


def need_nonneg(it, *xs):
    for x in xs:
        if not valid(it.pc, ge(x, 0)):
            raise Undecided('order may be negative')


def prodf(fs):
    r = None
    for f in fs:
        r = f if r is None else fmul(r, f, key_add)
    return r


def embed(f, idx, n=None):
    """keys (.., k[idx[j]] or 0, ..)"""
    return f.mapkey(lambda k: tuple(k[i] if i >= 0 else ZERO for i in idx))


def fplus(f, g):
    return fmul(f, g, key_add)


def multinom(n, ns):
    r = FactE(n)
    for x in ns:
        r = r / FactE(x)
    return r


# ---- all splits of the power
def over_splits(n, r, fn):
    """SUM over n_1 + .. + n_r = n of fn(n, (n_1, .., n_r))"""
    n = toE(n)
    if n.is_const() and n.cval() <= 2:
        return psum(*[fn(n, tuple(E.const(x) for x in c)) for c in compositions(int(n.cval()), r)]) if n.cval() >= 0 else FZERO
    bs = [symbase(fresh('n'), True) for _ in range(r - 1)]
    es = [E.base(b) for b in bs]
    last = n - psum_e(es)
    dom = [ge(e, 0) for e in es] + [ge(last, 0)]
    f = fn(n, tuple(es) + (last,))
    return F(Term(t.pb, tuple(bs) + tuple(t.ib), tuple(dom) + tuple(t.dom), t.coef, t.key) for t in f.ts)


def psum_e(es):
    s = ZERO
    for e in es:
        s = s + e
    return s


def nonneg(*names):
    return [ge(I(n), 0) for n in names]


def facts(name, nonneg=(), fixed=None):
    """invariants of every key of an atom: components never negative, components with a fixed value (proved where the atom is defined)"""
    U.NONNEG_AT[name] = nonneg
    U.FIXED_AT[name] = fixed or {}

    def g(k, args):
        return [ge(k[c], 0) for c in nonneg] + [c_eq(k[c], fn(*args)) for c, fn in (fixed or {}).items()]
    g.with_args = True
    ATOM_INV[name] = g
