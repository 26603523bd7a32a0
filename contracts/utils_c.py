"""utils: multinomial coefficients, double factorials, normal central moments, elimination of sqrt(1-rho^2)."""
from .base import *
from engine.loops import *

M = 'ajdmom.utils.'


# ---- comb(n, ns) = n! / (ns_1! ... ns_l! (n - SUM ns)!)
def psum_j(j):
    return FnE('prefix_sum', toE(j), isint=True)


def pfact_j(j):
    return FnE('prefix_fact', toE(j))


def elem(j):
    return FnE('ns', toE(j), isint=True)


COMB = {
    'seq': 'ns',
    'state': lambda j: (ZERO + _n() - ps(j), FactE(_n()) / FactE(_n() - ps(j)) / pf(j)),
    'next': lambda j: (_n() - ps(j) - elem(j), FactE(_n()) / FactE(_n() - ps(j) - elem(j)) / pf(j) / FactE(elem(j))),
    'conds': lambda j: [ge(ps(j), 0), ge(_n(), ps(j))],
    'next_conds': lambda j: [ge(ps(j) + elem(j), 0), ge(_n(), ps(j) + elem(j))],
    'elem_conds': lambda j: [ge(elem(j), 0), ge(_n(), ps(j) + elem(j))],       # precondition: ns >= 0, SUM ns <= n
}


def _n():
    return I('n')


def ps(j):
    j = toE(j)
    return ZERO if j.is_const() and j.cval() == 0 else psum_j(j)


def pf(j):
    j = toE(j)
    return ONE if j.is_const() and j.cval() == 0 else pfact_j(j)


@contract(M + 'comb')
def comb(it, n, ns):
    if isinstance(ns, OpaqueSeq):
        return FactE(n) / FactE(n - ps(ns.length)) / pf(ns.length)
    if isinstance(ns, StackV) and ns.head is not None:
        left, r = toE(n) - ns.S, FactE(n) / FnE('pfact', SeqV((('q', ns.head, 'all'),)), ns.L)
        if not (ns.nonneg and all(valid(it.pc, ge(x, 0)) for x in ns.items) and valid(it.pc, ge(n, ns.sum()))):
            raise Undecided('comb: indices')
        for x in ns.items:
            r, left = r / FactE(x), left - x
        return r / FactE(left)
    xs = it.iter_concrete(ns)
    if xs is None or not all(isinstance(x, E) for x in xs):
        raise Undecided('comb: list')
    left, r = toE(n), FactE(n)
    tot = psum_list(xs)
    for x in xs:
        if not valid(it.pc, ge(x, 0)):
            raise Undecided('comb: index may be negative')
        r = r / FactE(x)
    if not valid(it.pc, ge(left, tot)):
        raise Undecided('comb: indices may exceed the order')
    return r / FactE(left - tot)


def psum_list(xs):
    s = ZERO
    for x in xs:
        s = s + x
    return s


class Ns(OpaqueSeq):
    def __init__(self):
        super().__init__('ns', I('L'), lambda it, i: elem(i))

    def to_real(self, env):
        return [env.rnd.randint(0, 3) for _ in range(env.int_of(symbase('L', True)))]


def csetup_comb(it):
    xs = [it.rnd.randint(0, 4) for _ in range(it.rnd.randint(0, 5))]
    return [E.const(sum(xs) + it.rnd.choice((0, 0, 1, 3))), ListV([E.const(x) for x in xs])], []


Unit(M + 'comb', lambda it: ([I('n'), Ns()], [ge(I('n'), 0), ge(I('L'), 0)]), opts={'for': ghost_for(COMB)}, csetup=csetup_comb)


# ---- double factorial
def dbl(half, odd):
    """(2 half)!! or (2 half + 1)!!"""
    if odd:
        return FactE(2 * half + 1) / FactE(half) / powE(E.const(2), half)
    return powE(E.const(2), half) * FactE(half)


def halve(n):
    """(n // 2, n % 2) when all variable coefficients are even"""
    n = toE(n)
    c = n.cval()
    if all(len(m) == 1 and v.denominator == 1 and v % 2 == 0 and all(b.isint for b, _ in m) for m, v in n.t.items() if m) and c.denominator == 1:
        return (n - E.const(c % 2)) / 2, int(c % 2)
    return None


def dbl_state(odd):
    # value of f when n = n0 - 2j:  n0 (n0-2) ... (n0-2j)
    def st(j):
        h = I('h')
        n = 2 * h + odd - 2 * j
        return (n, dbl(h, odd) / dbl(h - j, odd) * n)
    low = 0 if odd else 1
    return {'state': st, 'next': lambda j: st(j + 1), 'conds': lambda j: [ge(j, 0), ge(I('h') - j, low)],
            'rank': lambda j: I('h') - j, 'exit': lambda: I('h') - low}


@contract(M + 'dbfactorial')
def dbfactorial(it, n):
    if not valid(it.pc, ge(n, 0)):
        raise Undecided('dbfactorial: argument may be negative')
    r = halve(n)
    if r is None:
        raise Undecided('dbfactorial: parity unknown')
    return dbl(*r)


for odd in (0, 1):
    Unit(M + 'dbfactorial', (lambda o: lambda it: ([2 * I('h') + o], [ge(I('h'), 0)]))(odd), opts={'while': ghost_while(dbl_state(odd))},
         variant='odd' if odd else 'even', ranges={'h': (0, 12)})


# ---- central moments of N(0, sigma^2)
@contract(M + 'cmnorm')
def cmnorm(it, n):
    if not valid(it.pc, ge(n, 0)):
        raise Undecided('cmnorm: order may be negative')
    r = halve(n)
    if r is None:
        n = toE(n)
        return poly(fmono(FactE(n) / FactE(n / 2) / powE(E.const(2), n / 2), (n,)).guard(c_eq(mod2(n), ZERO)), ('sigma',))
    h, odd = r
    if odd:
        return poly(FZERO, ('sigma',))
    return poly(fmono(FactE(2 * h) / FactE(h) / powE(E.const(2), h), (toE(n),)), ('sigma',))


for odd in (0, 1):
    Unit(M + 'cmnorm', (lambda o: lambda it: ([2 * I('h') + o], [ge(I('h'), 0)]))(odd), variant='odd' if odd else 'even', ranges={'h': (0, 10)},
         keyshape=('i',))


# ---- simplify_rho: s^(2p) -> (1 - r^2)^p, s = variable n, r = the variable before it
def mod2(e):
    return ModE(e, 2)


def rho_f(f, n):
    def one(k):
        rest = list(k[:n]) + list(k[n + 1:])
        i = symbase(fresh('i'), True)
        b = E.base(i)
        p = k[n] / 2
        key = list(rest)
        key[n - 1] = key[n - 1] + 2 * b
        return F((Term((), (i,), (c_le(ZERO, b), c_le(b, p), c_eq(mod2(k[n]), ZERO)), FactE(p) / FactE(b) / FactE(p - b) * powE(E.const(-1), b), tuple(key)),))
    return bind_over(f, one)


@contract(M + 'simplify_rho')
def simplify_rho(it, p, n):
    n = toE(n)
    if not n.is_const() or p.keyfor is None or isinstance(p.keyfor, StrSeq):
        raise Undecided('simplify_rho: position')
    n = int(n.cval())
    f = it.getf(p)
    if not (0 < n < len(p.keyfor)):
        raise Undecided('simplify_rho: position')
    for t in f.ts:
        pc = list(it.pc) + list(t.dom) + inv_conds(t.pb)
        if not feasible(pc):
            continue
        if not valid(pc, ge(t.key[n], 0)):
            raise Undecided('simplify_rho: exponent may be negative')
        odd = c_not(c_eq(mod2(t.key[n]), ZERO))
        if feasible(pc + [odd]):
            it.frames[-1].raises.append((t.pb, t.ib, t.dom + (odd,), 'Exception'))
    return need(poly(rho_f(f, n), tuple(p.keyfor[:n]) + tuple(p.keyfor[n + 1:])))


def need(p):
    p.nozero = 'need'
    return p


for ar, n in ((7, 2), (3, 1), (2, 1), (9, 8), (10, 9), (8, 7), (12, 11)):
    Unit(M + 'simplify_rho', (lambda a, m: lambda it: ([P('P', 'i' * a, dom=lambda k: [ge(k[m], 0)]), E.const(m)], []))(ar, n),
         gen={'P': (lambda a, m: lambda r: tuple(r.choice((0, 0, 2, 2, 4, 4, 6, 1) if r.random() < .15 else (0, 2, 4, 2 * r.randint(0, 12))) if i == m else
                                                 r.randint(-2, 3) for i in range(a)))(ar, n)},
         variant=f'{ar} variables, position {n}', bounded=None if False else f'number of variables {ar}, position {n}')


# ---- enumerations: depth-first walks over index vectors
from engine.odo import odometer
from engine.unit import chk_equal, Fail


def vec_syms(n):
    bs = [symbase(fresh('v'), True) for _ in range(n)]
    return bs, [E.base(b) for b in bs]


def grid(n, m):
    """vectors of n components in 0..m-1"""
    m = toE(m)

    def ok(p):
        return [c_and(ge(x, 0), ge(m - 1, x)) for x in p]

    def full(p):
        bs, v = vec_syms(n - len(p))
        return bs, ok(v), list(p) + v
    return {'n': n, 'ok': ok, 'full': full}


def splits(n, m):
    """vectors of n non-negative components with sum m"""
    m = toE(m)

    def ok(p):
        last = c_eq(psum_list(p), m) if len(p) == n else ge(m, psum_list(p))
        return [ge(x, 0) for x in p] + [last]

    def full(p):
        if len(p) == n:
            return [], ok(p), list(p)
        bs, v = vec_syms(n - len(p) - 1)
        v = list(p) + v
        v.append(m - psum_list(v))
        return bs, [ge(x, 0) for x in v], v
    return {'n': n, 'ok': ok, 'full': full}


def list_f(v):
    """the elements of a list of lists as a formal sum"""
    if isinstance(v, ListV):
        parts = [((), (), (), x) for x in v.items]
    elif isinstance(v, GenListV):
        parts = v.parts
    else:
        raise Fail(f'{type(v).__name__} instead of a list', None)
    out = []
    for pb, ib, dom, x in parts:
        x = x.items if isinstance(x, ListV) else x if isinstance(x, LTuple) else None
        if x is None:
            raise Fail('an element is not a list', None)
        out.append(Term(tuple(pb), tuple(ib), tuple(dom), ONE, tuple(x)))
    return F(out).refresh()


def goal_list(sp):
    def goal(unit, it, args, out):
        if out.kind != 'value':
            raise Fail(f'raises {out.value}', model_of(it.pc))
        bs, dom, v = sp(args)['full']([])
        chk_equal(it, list_f(out.value), F((Term((), tuple(bs), tuple(dom), ONE, tuple(v)),)), 'elements of the list')
    return goal


def cmp_list(elems):
    def cmp(got, exp, env):
        want = sorted(elems(env))
        return None if isinstance(got, list) and sorted(got) == want else f'{got} instead of {want}'
    return cmp


def spec_any(it, *a):
    return None


import itertools as _it
from engine.walk import walker


# any number of levels: the walk over vectors of symbolic length
class Vectors:
    """marker: all vectors of a set, each once"""
    def __init__(self, *a):
        self.a = a

    def __repr__(self):
        return f'vectors{self.a}'


def grid_walk(n, m, **k):
    n, m = toE(n), toE(m)

    def fill(S):
        b = symbase(fresh('v'), True)
        v = E.base(b)
        return [b], [ge(v, 0), ge(m - 1, v)], [v]
    return dict(n=n, elem=lambda x, s: [ge(x, 0), ge(m - 1, x)], inc=lambda x, s: ge(m - 2, x), mono=False, free=1, fill=fill,
                sum=lambda S: [], **k)


def split_walk(n, m, **k):
    n, m = toE(n), toE(m)

    def fill(S):
        b = symbase(fresh('v'), True)
        v = E.base(b)
        return [b], [ge(v, 0), ge(m - S, v)], [v, m - S - v]
    return dict(n=n, elem=lambda x, s: [ge(x, 0), ge(m, toE(s) + x)], inc=lambda x, s: ge(m - 1, toE(s) + x), mono=True, free=2, fill=fill,
                sum=lambda S: [ge(m, S)], **k)


def goal_walk(kind, small):
    def goal(unit, it, args, out):
        if out.kind != 'value':
            raise Fail(f'raises {out.value}', model_of(it.pc))
        n, m = args
        v = out.value
        if isinstance(v, GenListV) and any(isinstance(p[3], Vectors) for p in v.parts):
            if len(v.parts) != 1 or v.parts[0][:3] != ((), (), ()) or v.parts[0][3].a != (kind, repr(n), repr(m)):
                raise Fail('elements of the list', None)
            return
        for k, sp in small.items():
            if valid(it.pc, c_eq(n, E.const(k))):
                bs, dom, w = sp(k, m)['full']([])
                chk_equal(it, list_f(v), F((Term((), tuple(bs), tuple(dom), ONE, tuple(w)),)), 'elements of the list')
                return
        raise Undecided('list of vectors')
    return goal


Unit(M + 'multilevel_index', lambda it: ([I('n'), I('m')], [ge(I('n'), 1), ge(I('m'), 1)]), goal=goal_walk('grid', {}), spec=spec_any,
     opts={'while': walker(grid_walk(I('n'), I('m'), kind='list', total=lambda it: Vectors('grid', repr(I('n')), repr(I('m')))))},
     ranges={'n': (1, 6), 'm': (1, 4)}, tries=24, compare=lambda got, exp, env: (lambda n, m: cmp_vec(got, [list(x) for x in _it.product(range(m), repeat=n)]))(
         env.int_of(symbase('n', True)), env.int_of(symbase('m', True))))
Unit(M + 'multilevel_comb', lambda it: ([I('n'), I('m')], [ge(I('n'), 1), ge(I('m'), 0)]), goal=goal_walk('splits', {1: splits, 2: splits}), spec=spec_any,
     opts={'while': walker(split_walk(I('n'), I('m'), kind='list', total=lambda it: Vectors('splits', repr(I('n')), repr(I('m')))))},
     ranges={'n': (1, 6), 'm': (0, 5)}, tries=24, compare=lambda got, exp, env: (lambda n, m: cmp_vec(got, [list(x) for x in _it.product(range(m + 1), repeat=n) if sum(x) == m]))(
         env.int_of(symbase('n', True)), env.int_of(symbase('m', True))))


def cmp_vec(got, want):
    try:
        return None if isinstance(got, list) and sorted(got) == sorted(want) else f'{str(got)[:200]} instead of {str(sorted(want))[:200]}'
    except TypeError as e:
        return f'{str(got)[:200]}: {e}'


from . import rho       # noqa: simplify_rho for any number of variables (replaces the units of fixed arity above)
