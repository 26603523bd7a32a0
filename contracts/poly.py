"""poly: ring operations on polynomials of any arity (keys are vectors of symbolic length)."""
from .base import *

Q = 'ajdmom.poly.'
C = 'ajdmom.poly.Poly.'
V = ('V',)


def vpoly(name, length=None, **kw):
    p = PolyV(fatom(name, (), V), StrSeq(name + '_names', length if length is not None else ARITY), 0, name=name, param=True)
    p.may_change = kw.get('may_change', False)
    p.may_alias = False
    return p


def need(p):
    p.nozero = 'need'
    return p


def bad(it, a, b):
    """the refusal condition shared by the binary operations"""
    if not it.same_kind(a, b):
        raise PyRaise('NotImplementedError')


def spec_add(it, a, b):
    bad(it, a, b)
    return need(poly2(it.getf(a) + it.getf(b), a.keyfor))


def spec_sub(it, a, b):
    bad(it, a, b)
    return need(poly2(it.getf(a) - it.getf(b), a.keyfor))


def spec_mul(it, a, b):
    bad(it, a, b)
    return need(poly2(fmul(it.getf(a), it.getf(b), key_add), a.keyfor))


def spec_rmul(it, a, c):
    return need(poly2(it.getf(a).scale(c), a.keyfor))


def spec_pow(it, a, n):
    if it.branch(c_le(n, ZERO)):
        raise PyRaise('NotImplementedError')
    return poly2(it.fpow(it.getf(a), n), a.keyfor)


def poly2(f, kf):
    return PolyV(f, kf, 0)


def two(it):
    return [vpoly('a'), vpoly('b', I('Lb'))], [ge(ARITY, 0), ge(I('Lb'), 0)]


def ctwo(it, other=False):
    """concrete polynomials: random arity; `other`: variable names that may differ in length, name or order"""
    k = it.rnd.choice((1, 2, 3, 4))
    na = tuple(f'x{i}' for i in range(k))
    nb = na
    if other and it.rnd.random() < 0.5:          # names that nearly agree
        na = ('e^{-kh}', 'h', 'k^{-}', '(n1*k1)^{-i}', 'v0-theta')[-k:]
        i = it.rnd.randrange(k)
        w = na[i]
        w = it.rnd.choice([w.upper(), w.title(), w + ' ', ' ' + w, '(' + w + ')', w.strip('()'), w + '1', w[:-1], w[1:], w[::-1], w.replace('-', ''), w.replace('{', '').replace('}', ''), w + w, '', w.replace('k', 'K'), '-' + w, w.replace('0', 'O')])
        nb = na[:i] + (w,) + na[i + 1:]
    elif other:
        nb = it.rnd.choice([na, na[::-1], na[:-1] + ('y',), ('y',) + na[1:], na + ('y',), na[:-1], na[1:] + na[:1]])
    return [P('a', 'i' * k, keyfor=na), P('b', 'i' * len(nb), keyfor=nb)], []


def cother(it):
    return ctwo(it, True)


class NotPoly:
    """an argument that is not a polynomial"""
    def __repr__(self):
        return 'nonpoly'

    def to_real(self, env):
        return env.rnd.choice([3, {(1,): 2}, None, 'x'])


for op, spec in (('__add__', spec_add), ('__sub__', spec_sub), ('__mul__', spec_mul)):
    Unit(C + op, two, spec=spec, csetup=ctwo)
    Unit(C + op, lambda it: ([vpoly('a'), NotPoly()], [ge(ARITY, 0)]), spec=spec, variant='non-polynomial',
         csetup=lambda it: ([P('a', 'ii'), NotPoly()], []))
    Unit(C + op, lambda it: ([P('a', 'ii'), P('b', 'ii')], []), spec=spec, variant='other names', csetup=cother)
    Unit(C + op, lambda it: ([P('a', 'ii'), P('b', 'iii')], []), spec=spec, variant='other length')

Unit(C + '__rmul__', lambda it: ([vpoly('a'), R('c')], [ge(ARITY, 0)]), spec=spec_rmul,
     csetup=lambda it: ([P('a', 'iii'), R('c')], []))
Unit(C + '__pow__', lambda it: ([vpoly('a'), I('n')], [ge(ARITY, 0)]), spec=spec_pow,
     csetup=lambda it: ([P('a', 'iii'), I('n')], []), ranges={'n': (-1, 4)})


# ---- in-place operations: the target's new value is the contract's
def mutator(new, raises=None, nozero=True, keyfor=None):
    def goal(unit, it, args, out):
        pc0, base = it.pc, list(it.pc)
        res = it.all_paths(lambda: run_thunk(it, lambda: new(it, *args)))
        try:
            for g, so in res:
                it.pc = base + g
                if not feasible(it.pc):
                    continue
                if so.kind != out.kind:
                    raise Fail('raises where it should not' if out.kind == 'raise' else 'accepts what it must refuse', model_of(it.pc))
                if so.kind == 'raise':
                    if out.mut:
                        raise Fail('target changed by a refused operation', model_of(it.pc))
                    continue
                want = so.value
                for a, f, kf, nz in out.post:
                    if a is args[0]:
                        w = PolyV(want.f, want.keyfor)
                        w.nozero = 'need' if nozero else False
                        g2 = PolyV(f, kf)
                        g2.nozero = nz
                        cmp_val(it, g2, w, 'target')
                if raises_f(out.raises).ts:
                    raise Fail('raises for some terms', model_of(it.pc))
        finally:
            it.pc = pc0
    return goal


def post_call(name):
    """run the real mutator and return the target"""
    def fn(a, *rest):
        from engine import concrete as cc
        cc.real(C + name)(a, *rest)
        return a
    return fn


def spec_merge(it, a, b):
    bad(it, a, b)
    return poly2(a.f + b.f, a.keyfor)


def setup_merge(it):
    return [vpoly('a', may_change=True), vpoly('b', I('Lb'))], [ge(ARITY, 0), ge(I('Lb'), 0)]


def mut(p):
    p.may_change = True
    return p


def csetup_merge(it):
    a = mut(P('a', 'iii'))
    return [a, P('b', 'iii', keyfor=a.keyfor)], []


Unit(C + 'merge', setup_merge, goal=mutator(spec_merge), spec=spec_merge, csetup=csetup_merge, real_call=post_call('merge'))
Unit(C + 'merge', lambda it: ([mut(vpoly('a')), NotPoly()], [ge(ARITY, 0)]), goal=mutator(spec_merge), spec=spec_merge,
     variant='non-polynomial', csetup=lambda it: ([mut(P('a', 'ii')), NotPoly()], []), real_call=post_call('merge'))
Unit(C + 'merge', lambda it: ([mut(P('a', 'ii')), P('b', 'ii')], []), goal=mutator(spec_merge), spec=spec_merge,
     variant='other names', csetup=lambda it: (lambda r: ([mut(r[0][0]), r[0][1]], []))(cother(it)), real_call=post_call('merge'))


def spec_addkv(it, a, key, val):
    return poly2(a.f + it.term_f(val, key), a.keyfor)


Unit(C + 'add_keyval', lambda it: ([mut(vpoly('a')), vec_of(Base('v', 'key')), R('val')], [ge(ARITY, 0)]),
     goal=mutator(spec_addkv, nozero=False), spec=spec_addkv, real_call=post_call('add_keyval'),
     csetup=lambda it: ([mut(P('a', 'ii')), (I('k0'), I('k1')), R('val')], []), ranges={'k0': (-2, 4), 'k1': (-2, 4)})
Unit(C + 'remove_zero', lambda it: ([mut(vpoly('a'))], [ge(ARITY, 0)]), goal=mutator(lambda it, a: poly2(a.f, a.keyfor)),
     spec=lambda it, a: poly2(a.f, a.keyfor), real_call=post_call('remove_zero'), csetup=lambda it: ([mut(P('a', 'ii'))], []))


def setup_setkf(it):
    return [mut(vpoly('a')), StrSeq('names', I('L'))], [ge(ARITY, 0), ge(I('L'), 0)]


Unit(C + 'set_keyfor', setup_setkf, goal=mutator(lambda it, a, n: poly2(a.f, n), nozero=False),
     spec=lambda it, a, n: poly2(a.f, n), real_call=post_call('set_keyfor'),
     csetup=lambda it: ([mut(P('a', 'ii')), (StrV('x'), StrV('y'))], []))


# ---- is_exact_type: same class, same length, same names in the same order
def spec_exact(it, a, b):
    return it.same_kind(a, b)


Unit(C + 'is_exact_type', two, spec=spec_exact, csetup=ctwo)
Unit(C + 'is_exact_type', lambda it: ([P('a', 'ii'), P('b', 'ii')], []), spec=spec_exact, variant='other names', csetup=cother)
Unit(C + 'is_exact_type', lambda it: ([P('a', 'ii'), P('b', 'iii')], []), spec=spec_exact, variant='other length')
Unit(C + 'is_exact_type', lambda it: ([vpoly('a'), NotPoly()], [ge(ARITY, 0)]), spec=spec_exact, variant='non-polynomial',
     csetup=lambda it: ([P('a', 'ii'), NotPoly()], []))


# ---- kv: a missing position counts as exponent zero
@contract(Q + 'kv')
def kv(it, i, key):
    ln = it.builtin('len', [key], {})
    if it.branch(c_and(ge(i, 0), c_lt(i, ln))):
        return it.getitem(key, i)
    return ZERO


Unit(Q + 'kv', lambda it: ([I('i'), vec_of(Base('v', 'key'))], [ge(ARITY, 0)]),
     csetup=lambda it: ([I('i'), tuple(I(f'k{j}') for j in range(it.rnd.choice((1, 3, 3, 8, 17))))], []), ranges={'i': (-3, 17)})


# ---- cross-variable product
class IdxSeq(OpaqueSeq):
    """opaque list of integers of symbolic length"""
    def __init__(self, name, length):
        super().__init__(name, length, self.elem_at)
        self.ref = VRef(Base('v', name))

    def elem_at(self, it, i):
        if not it.branch(c_and(ge(i, 0), c_lt(i, self.length))):
            raise PyRaise('IndexError')
        return FnE('at', self.ref, i, isint=True)

    def __repr__(self):
        return self.name


def vec_get(v, i):
    """exponent of variable number i, zero when i is no position of the key"""
    return ind(c_and(ge(i, 0), c_lt(i, v.length))) * v.at(i)


def spec_mul_poly(it, a, b, idx, keyfor):
    i1, i2 = idx
    if isinstance(i1, (tuple, ListV)):
        return it.c_mul_poly(a, b, idx, keyfor)

    def kop(x, y):
        el = vec_get(x, FnE('at', i1.ref, E.base(IDX), isint=True)) + vec_get(y, FnE('at', i2.ref, E.base(IDX), isint=True))
        return VecV(i1.length, el)
    return need(poly2(fmul(it.getf(a), it.getf(b), kop), keyfor))


def setup_mp(it):
    n = I('kN')
    return ([vpoly('a'), vpoly('b', I('Lb')), (IdxSeq('idx1', n), IdxSeq('idx2', n)), StrSeq('names', n)],
            [ge(ARITY, 0), ge(I('Lb'), 0), ge(n, 0)])


def csetup_mp(it):
    na, nb, n = it.rnd.choice(((2, 3, 4), (2, 3, 4), (1, 1, 2), (8, 5, 10), (14, 13, 16)))
    ix = tuple(tuple(I(f'{x}{j}') for j in range(n)) for x in 'pq')
    return [P('a', 'i' * na), P('b', 'i' * nb), ix, tuple(StrV(f'y{j}') for j in range(n))], []


Unit(C + 'mul_poly', setup_mp, spec=spec_mul_poly, csetup=csetup_mp,
     ranges={f'{x}{j}': (-1, 3) if j < 4 else (-1, 14) for x in 'pq' for j in range(16)})
