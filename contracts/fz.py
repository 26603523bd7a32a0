"""Nested sums over the jumps (utils.fZ, utils.fZ_each_index, mdl_srjd.cond2_mom.fZ): with the running latest jump time m_i = s_j1 v .. v s_ji,

fZ(l,o,p,q) = SUM_{j1..jn} PRODUCT_i e^{l_i k s_ji} J_ji s_ji^{o_i} PRODUCT_{i>=2} e^{p_i k m_i} m_i^{q_i};   1 for n = 0, 0 without jumps."""
from .base import *
from .p2n import ex
from .p2n_cond import JS, ST, K_, cmp_env, seqv, POS
from engine.odo import odometer
from .utils_c import grid

U1 = 'ajdmom.utils.'


def pieces(times):
    """(conditions, running maxima m_1 .. m_n), one entry per order pattern"""
    out = [((), (times[0],))]
    for t in times[1:]:
        nxt = []
        for cs, ms in out:
            nxt.append((cs + (c_lt(t, ms[-1]),), ms + (ms[-1],)))
            nxt.append((cs + (c_le(ms[-1], t),), ms + (t,)))
        out = nxt
    return out


def item(l, o, p, q, k, s, J, idx):
    """one summand, as a formal sum over the order patterns of the jump times"""
    times = [s.get(None, j) for j in idx]
    c = ONE
    for i, j in enumerate(idx):
        c = c * ex(l[i] * k * times[i]) * J.get(None, j)
        if o is not None:
            c = c * powE(times[i], o[i])
    r = FZERO
    for cs, ms in pieces(times):
        w = c
        for i in range(1, len(idx)):
            w = w * ex(p[i - 1] * k * ms[i])
            if q is not None:
                w = w * powE(ms[i], q[i - 1])
        r = r + fscalar(w).guard(*cs)
    return r


def exps(name, n):
    return tuple(I(f'{name}{i}') for i in range(n))


def seqs(n, four=True):
    l, o, p, q = exps('l', n), exps('o', n), exps('p', max(0, n - 1)), exps('q', max(0, n - 1))
    return (l, o, p, q) if four else (l, None, p, None)


def total(n, four):
    a = seqs(n, four)

    def spec(it, *args):
        if n == 0:
            return ONE
        bs, dom, v = grid(n, JS.length)['full']([])
        from engine.odo import over
        return norm_num(over(bs, dom, item(*a, K_, ST, JS, v)))
    return spec


def need_o(n, four):
    r = [ge(Sym('nJ'), 0)]
    if four:
        r += [ge(x, 0) for x in exps('o', n) + exps('q', max(0, n - 1))]
    return r


def c_fz(four):
    def spec(it, *args):
        return CONTRACTS['ajdmom.utils.fZ' if four else 'ajdmom.mdl_srjd.cond2_mom.fZ'](it, *args)
    return spec


RNG = {f'{x}{i}': (-2, 2) for x in 'lp' for i in range(6)} | {f'{x}{i}': (0, 2) for x in 'oq' for i in range(6)} | {'nJ': (0, 3)}
for q, four in ((U1 + 'fZ', True), ('ajdmom.mdl_srjd.cond2_mom.fZ', False)):
    for n in (0, 1, 2, 3, 4, 5, 6):
        a = seqs(n, four)
        Unit(q, (lambda a, n, four: lambda it: ([x for x in a if x is not None] + [K_, ST, JS], need_o(n, four)))(a, n, four),
             spec=total(n, four), variant=f'{n} sums', bounded=f'number of nested sums {n}',
             opts={'while': odometer(dict(grid(n, JS.length), kind='num', item=(lambda a: lambda it, v: item(*a, K_, ST, JS, v))(a)))} if n else {},
             ranges=RNG if n < 5 else RNG | {'nJ': (1, 2)}, tries=6 if n < 5 else 12, gen={'k': POS}, compare=cmp_env, cspec=c_fz(four))


# ---- one summand
def vindex(n):
    return tuple(I(f'j{i}') for i in range(n))


for n in (1, 2, 3, 4, 5, 6):
    a = seqs(n)
    Unit(U1 + 'fZ_each_index', (lambda a, n: lambda it: (list(a) + [K_, ST, JS, ListV(vindex(n))],
                                                        need_o(n, True) + [c for j in vindex(n) for c in (ge(j, 0), gt(JS.length, j))]))(a, n),
         spec=(lambda a, n: lambda it, *args: norm_num(item(*a, K_, ST, JS, vindex(n))))(a, n), variant=f'{n} sums', bounded=f'number of nested sums {n}',
         gen={'k': POS}, ranges=dict(RNG, **{f'j{i}': (0, 2) for i in range(6)}), compare=cmp_env, tries=6 if n < 5 else 100,
         cspec=lambda it, l, o, p, q, k, s, J, index: FnE('fZ1', *[seqv(x) for x in (l, o, p, q)], k, s, J, seqv(tuple(index.items))))


# ---- any number of nested sums: ghost functions defined by recursion over the components of the index vector v
#   M(0) = s[v_0],  M(j+1) = max(M(j), s[v_j]) for j > 0, M(1) = M(0)
#   G(0) = 1,       G(j+1) = G(j) e^{l_j k s[v_j]} J[v_j] s[v_j]^{o_j} * (j > 0:  e^{p_{j-1} k M(j+1)} M(j+1)^{q_{j-1}})
from engine.walk import walker
from engine.loops import index_loop
from engine.unit import retire
from .utils_c import grid_walk

NS = I('n_sums')


def oseq(name, n, low):
    def elem(it, i):
        if not valid(it.pc, c_and(c_le(ZERO, i), c_lt(i, n))):
            if not it.branch(c_and(c_le(ZERO, i), c_lt(i, n))):
                raise Undecided('index of an exponent tuple')
        x = FnE(name, toE(i), isint=True)
        if low is not None:
            it.fact(ge(x, low))
        return x
    return OpaqueSeq(name, n, elem)


LX, OX, PX, QX = oseq('l', NS, None), oseq('o', NS, 0), oseq('p', NS - 1, None), oseq('q', NS - 1, 0)


def at(name, j):
    return FnE(name, toE(j), isint=True)


def mx(v, j):
    return FnE('fzM', v.seq(), toE(j))


def gg(v, j):
    return FnE('fzG', v.seq(), toE(j))


def tm(x):
    return ST.get(None, x)


def comp(v, j):
    return FnE('elem', v.seq(), j, isint=True)


def fz_step(four):
    def step(v, j, pc):
        t = tm(comp(v, j))
        w = gg(v, j) * ex(at('l', j) * K_ * t) * JS.get(None, comp(v, j))
        if four:
            w = w * powE(t, at('o', j))
        if valid(pc, c_eq(j, ZERO)):
            return w, mx(v, j)
        if not valid(pc, c_lt(ZERO, j)):
            raise Undecided('first component not told apart')
        if valid(pc, c_le(mx(v, j), t)):
            m = t
        elif valid(pc, c_le(t, mx(v, j))):
            m = mx(v, j)
        else:
            raise Undecided('later jump time not told apart')
        w = w * ex(at('p' if four else 'o', j - 1) * K_ * m)
        if four:
            w = w * powE(m, at('q', j - 1))
        return w, m
    return step


def fz_loop(four):
    return index_loop({'vars': 2, 'start': lambda v: (ONE, tm(v.first)), 'state': lambda v, j: (gg(v, j), mx(v, j)), 'facts': lambda v, j: [],
                       'conds': lambda v, j: [ge(comp(v, j), 0), gt(JS.length, comp(v, j))] + ([ge(at('o', j), 0), c_or(c_eq(j, ZERO), ge(at('q', j - 1), 0))] if four else []),
                       'step': fz_step(four)})


def fz_item(four):
    def it_(it, seq):
        if seq.explicit():
            v = [x[1] for x in seq.p]
            n = len(v)
            l, o, p, q = (tuple(at(c, i) for i in range(n - (c in 'pq' or c == 'o' and not four))) for c in 'lopq')
            return item(l, o, p, q, K_, ST, JS, v) if four else item(l, None, o, None, K_, ST, JS, v)
        return fscalar(FnE('fzG', seq, seq.length()))
    return it_


def fz_spec(four):
    def spec(it, *args):
        if it.branch(c_eq(NS, ZERO)):
            return ONE
        if it.branch(c_eq(JS.length, ZERO)):
            return ZERO
        return FnE('fzTotal')
    return spec


attach = retire(U1 + 'fZ', U1 + 'fZ_each_index', 'ajdmom.mdl_srjd.cond2_mom.fZ')
O2 = oseq('o', NS - 1, None)
for q, four in ((U1 + 'fZ', True), ('ajdmom.mdl_srjd.cond2_mom.fZ', False)):
    attach(Unit(q, (lambda four: lambda it: ([LX, OX, PX, QX, K_, ST, JS] if four else [LX, O2, K_, ST, JS], [ge(NS, 0), ge(JS.length, 0)]))(four),
                spec=fz_spec(four), opts={'while': walker(grid_walk(NS, JS.length, kind='num', item=fz_item(four), total=lambda it: fscalar(FnE('fzTotal')))),
                                          'for': fz_loop(four)}))


def each_setup(it):
    b = Base('Q', 'index')
    a = I('j0')
    v = StackV(b, NS, I('sum_index'), a, [], it.depth)
    return [LX, OX, PX, QX, K_, ST, JS, v], [ge(NS, 1), ge(a, 0), gt(JS.length, a), c_eq(len_of(b), NS)]


attach(Unit(U1 + 'fZ_each_index', each_setup, spec=lambda it, *a: FnE('fzG', a[-1].seq(), NS), opts={'for': fz_loop(True)}))
