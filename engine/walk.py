"""Depth-first walks over all integer vectors of a *symbolic* length n (multilevel_index, multilevel_comb, the sums over
jumps): the stack of indices is an opaque prefix of any length followed by the last component.

Invariant, found per control state (values of the flags) and checked for a generic position:
  'lt'  the accumulator holds the items of exactly the vectors before all vectors that begin with the stack
  'le'  ... and also those that begin with the stack; and some vector comes later
with facts about the depth of the stack.  The lexicographic position advances on every step (or the depth moves the right
way), so that the walk ends, leaves no vector out and takes none twice.

spec: n -- number of components (E);  elem(x, before) -- conditions for a component after components with sum `before`;
inc(x, before) -- the component could be one larger;  mono -- inc at a later component implies inc at the first;
free -- number of components still missing at an emission;  fill(before) -> (binders, dom, components) of the completions;
item(it, seq) -> F (kinds 'poly', 'num');  total(it) -- denotation of the sum over all vectors;  kind, shape.
"""
import itertools
from .expr import *
from .sums import *
from . import interp as _i
from .odo import ast_names, is_flag, flag_key
from .unit import chk_equal, Fail

StackV = _i.StackV


def walker(spec):
    def hook(it, s, env, mod):
        used = {x.id for x in ast_names(s)}
        an = _i.assigned_names(s)
        kind = spec['kind']
        stacks = [n for n, v in env.items() if n in used and isinstance(v, _i.ListV) and not v.items]
        accs = [n for n, v in env.items() if n in used and (isinstance(v, _i.PolyV) if kind == 'poly' else isinstance(v, (E, _i.NumF)) and n in an if kind == 'num'
                else isinstance(v, _i.ListV))]
        last = None
        for st, acc in itertools.product(stacks, accs):
            if st == acc:
                continue
            for strict in (True, False):
                keep = list(it.pc)
                try:
                    return walk(it, s, env, mod, spec, st, acc, an, strict)
                except Undecided as e:
                    it.pc = keep
                    last = Undecided(f'{last or ""} [{st}/{acc}: {e}]')
        raise last or Undecided('while loop: no stack and accumulator found')
    return hook


FACTS = [('<=', k) for k in (0, 1, 2, 3)] + [('>=', 1)]


def fact_cond(f, n, L):
    return ge(n - f[1], L) if f[0] == '<=' else ge(L, f[1])


def ge(a, b):
    return c_le(toE(b), toE(a))


def cases(spec, it):
    """generic stacks: empty; one component; a prefix of at least one component and a last component
    -> (stack, length, conditions, 'some vector lies after')"""
    out = [(StackV(None, ZERO, ZERO, None, [], it.depth), [], FALSE)]
    x = Sym(fresh('x'), True)
    out.append((StackV(None, ZERO, ZERO, None, [x], it.depth), list(spec['elem'](x, ZERO)), spec['inc'](x, ZERO)))
    b = symbase(fresh('q'), True)
    b = Base('Q', fresh('q'))
    a, S, x = Sym(fresh('a'), True), Sym(fresh('S'), True), Sym(fresh('x'), True)
    L = len_of(b)
    later = Cond('atom', ('later', b.key))
    conds = [ge(L, 1), ge(S, a), c_or(c_not(c_eq(L, ONE)), c_eq(S, a)), c_or(c_not(later), ge(L, 2))] + list(spec['elem'](a, ZERO)) + list(spec['elem'](x, S))
    if spec['mono']:
        conds += [c_or(c_not(later), spec['inc'](a, ZERO)), *spec['sum'](S)]
    st = StackV(b, L, S, a, [x], it.depth)
    st.later, st.nonneg = later, valid(spec['elem'](a, S) + [ge(S, 0)], ge(a, 0)) if spec['mono'] else valid(spec['elem'](a, S), ge(a, 0))
    out.append((st, conds, c_or(spec['inc'](a, ZERO), later, spec['inc'](x, S))))
    return out


def elem_bases(c):
    """the terms elem(seq, #e) in a condition"""
    out = set()
    for b in c.bases():
        if b.kind == 'a' and b.args and b.args[-1][1:2] == ('elem',) and repr(b.args[1]) == '#e':
            out.add(b)
    return out


def forall_facts(spec, st, conds):
    """consequences of the quantified facts among the path conditions for a stack st"""
    out = []
    for c in conds:
        neg = c.op == 'not'
        d = c.a[0] if neg else c
        if d.op != 'atom' or not isinstance(d.a, tuple) or d.a[0] != 'exists':
            continue
        lo, hi, cc = d.a[1:]
        bs = elem_bases(cc)
        if len(bs) != 1:
            continue
        b = next(iter(bs))
        if repr(b.args[0]) != repr(st.seq()):
            continue
        yield_ = lambda e: cc.subst({b: e})
        e, t = Sym(fresh('e'), True), Sym(fresh('t'), True)
        ok = list(spec['elem'](e, t)) + ([ge(t, 0)] if spec['mono'] else [])
        exact = lambda pc: valid(pc, c_eq(lo, ZERO)) and valid(pc, c_eq(hi, st.length()))
        if neg:
            def f(pc, yield_=yield_, e=e, t=t, ok=ok, exact=exact):
                if not exact(pc):
                    return []
                r = [c_not(yield_(x)) for x in ([st.first] if st.head else []) + st.items]
                if st.head and not feasible(pc + ok + [c_not(yield_(e)), spec['inc'](e, t)]):
                    r.append(c_not(st.later))
                return r
        else:
            def f(pc, yield_=yield_, e=e, t=t, ok=ok, exact=exact):
                if not exact(pc):
                    return []
                some = [yield_(x) for x in ([st.first] if st.head else []) + st.items]
                if st.head:
                    if feasible(pc + ok + [yield_(e), c_not(spec['inc'](e, t))]):
                        return []
                    some.append(st.later)
                return [c_or(*some)]
        out.append(f)
    return out


def flat(cs):
    for c in cs:
        if c.op == 'and':
            yield from flat(c.a)
        else:
            yield c


def walk(it, s, env, mod, spec, st, acc, an, strict):
    n, kind = spec['n'], spec['kind']
    flags = sorted(x for x in an if x in env and x not in (st, acc) and is_flag(env[x]))
    base = list(it.pc)
    key = lambda fl: tuple(flag_key(v) for v in fl)
    first = [env[x] for x in flags]
    nodes = {key(first): ['lt', {f for f in FACTS if valid(base, fact_cond(f, n, ZERO))}, first]}
    todo, exits, steps = [key(first)], 0, 0

    def more(v, p, m):
        """a vector lies after those beginning with v; p: the generic stack it comes from"""
        ps, r, before = v.items, [], v.S
        if v.head is not None:
            r += [spec['inc'](v.first, ZERO), p.later]
        for x in ps:
            r.append(spec['inc'](x, before))
            before = before + x
        return c_or(*r) if r else FALSE

    def before(v, j):
        return v.S + sum(v.items[:j], ZERO)

    def fits(pc, after, emitted, p, cls, y):
        same = lambda a, b: all(is_zero(u - w) or valid(pc, c_eq(u, w)) for u, w in zip(a, b))
        X, Y = p.items, y.items
        if y.head is not p.head:
            return False
        d, e = len(X), len(Y)
        maximal = lambda j: not feasible(pc + [spec['inc'](X[j], before(p, j))])
        if not all(valid(pc, c) for j in range(e) for c in spec['elem'](Y[j], before(y, j))):
            return False
        if not after:
            return cls == 'lt' and e > d and same(X, Y) and same(Y[d:], [ZERO] * (e - d))
        if cls == 'le':
            if strict and not valid(pc, more(y, p, None)):
                return False
            return (e < d or emitted and e == d) and same(X[:e], Y) and all(maximal(j) for j in range(e, d))
        for j in range(min(d, e)):
            if same(X[:j], Y[:j]) and same([X[j] + 1], [Y[j]]) and same(Y[j + 1:], [ZERO] * (e - j - 1)) and all(maximal(i) for i in range(j + 1, d)):
                return True
        return False
    while todo:
        k0 = todo.pop()
        cls, facts, fl = nodes[k0]
        steps += 1
        if steps > 40:
            raise Undecided('control states of the walk')
        for p, conds, mo in cases(spec, it):
            it.pc = base + conds + [fact_cond(f, n, p.length()) for f in facts] + ([mo] if strict and cls == 'le' else [])
            if not feasible(it.pc):
                continue

            def thunk():
                e = dict(env)
                for v in an:
                    e[v] = _i.Poison(v)
                it.frames.append(_i.Frame())
                try:
                    e[st] = p.fresh_copy(it.depth)
                    for f, v in zip(flags, fl):
                        e[f] = v
                    if kind == 'poly':
                        a = _i.PolyV(fatom('ACC', (), spec['shape']), env[acc].keyfor, it.depth, name='ACC')
                    elif kind == 'num':
                        a = Sym('ACC', False)
                    else:
                        a = _i.ListV([E.const(-77)], it.depth)
                    e[acc] = a
                    if not it.truth(it.ev(s.test, e, mod)):
                        return 'exit', e, it.frames[-1]
                    try:
                        it.block(s.body, e, mod)
                    except _i.Continue:
                        pass
                    except _i.Break:
                        return 'exit', e, it.frames[-1]
                    except (_i.Returned, _i.PyRaise):
                        raise Undecided('exit inside the loop')
                    return 'next', e, it.frames[-1]
                finally:
                    it.frames.pop()
            try:
                for guard, (what, e, fr) in it.all_paths(thunk):
                    if fr.delta or fr.sets or fr.appends or fr.raises or fr.events or fr.bags or fr.lists:
                        raise Undecided('effects in a while loop')
                    pc = it.pc + guard
                    for f in forall_facts(spec, p, list(flat(guard))):
                        pc = pc + f(pc)
                    if not feasible(pc):
                        continue
                    y = e.get(st)
                    if not isinstance(y, StackV):
                        raise Undecided('stack')
                    emitted = delta(it, pc, spec, kind, env[acc], e.get(acc), p)
                    if emitted and cls == 'le':
                        raise Undecided('items added after the position')
                    after = emitted or cls == 'le'
                    if what == 'exit':
                        if not after or feasible(pc + [mo]):
                            raise Undecided('the walk ends early')
                        exits += 1
                        continue
                    nf = [e.get(f) for f in flags]
                    if not all(is_flag(v) for v in nf):
                        raise Undecided('control variables of the loop')
                    k = key(nf)
                    new = {f for f in FACTS if valid(pc, fact_cond(f, n, y.length()))}
                    for c in [nodes[k][0]] if k in nodes else ['lt', 'le']:
                        if fits(pc, after, emitted, p, c, y):
                            break
                    else:
                        raise Undecided(f'walk: position after the step from {cls} {p!r} to {y!r}')
                    if k not in nodes:
                        nodes[k] = [c, new, nf]
                        todo.append(k)
                    elif not nodes[k][1] <= new:
                        nodes[k][1] &= new
                        todo.append(k)
            finally:
                it.pc = list(base)
    if not exits:
        raise Undecided('the walk does not end')
    tot = spec['total'](it)
    if kind == 'list':
        parts = [((), (), (), x) for x in env[acc].items] + [((), (), (), tot)]
        r = _i.GenListV(parts, it.depth)
    elif kind == 'poly':
        r = _i.PolyV(env[acc].f + tot, env[acc].keyfor, it.depth)
    else:
        r = it.num_add(env[acc], _i.norm_num(tot))
    for v in an:
        env[v] = _i.Poison(v)
    env[st] = _i.Poison(st)
    env[acc] = r
    if s.orelse:
        it.block(s.orelse, env, mod)
    return None


def delta(it, pc, spec, kind, init, after, p):
    """False: nothing was added; True: exactly the items of all vectors that begin with p"""
    if kind == 'poly':
        if not isinstance(after, _i.PolyV) or (after.keyfor is not init.keyfor and _i.eq_val(tuple(after.keyfor or ()), tuple(init.keyfor or ())) is not True):
            raise Undecided('accumulator')
        got, a0 = after.f, fatom('ACC', (), spec['shape'])
    elif kind == 'num':
        if not isinstance(after, (E, _i.NumF)):
            raise Undecided('accumulator')
        got, a0 = it.numf(after), fscalar(Sym('ACC', False))
    else:
        parts = after.parts if isinstance(after, _i.GenListV) else [((), (), (), v) for v in after.items] if isinstance(after, _i.ListV) else []
        if not parts or parts[0][:3] != ((), (), ()) or parts[0][3] != E.const(-77):
            raise Undecided('accumulator')
        parts = [x[:3] + (_i.as_seq(tuple(x[3].items)) if isinstance(x[3], _i.ListV) else _i.as_seq(tuple(x[3])) if isinstance(x[3], tuple) else x[3],) for x in parts[1:]]
        if not all(isinstance(x[3], SeqV) for x in parts):
            raise Undecided('element is not a list of indices')
        got = F(Term(x[0], x[1], x[2], ONE, (x[3],)) for x in parts).refresh()
        a0 = FZERO
    saved = it.pc
    it.pc = pc
    try:
        if repr(got) == repr(a0):
            return False
        try:
            chk_equal(it, got, a0, 'nothing added')
            return False
        except Fail:
            pass
        if not valid(pc, c_eq(p.length() + spec['free'], spec['n'])):
            raise Undecided('items added at another depth')
        bs, dom, v = spec['fill'](p.S + sum(p.items, ZERO))
        seq = p.seq().concat(_i.as_seq(tuple(v)))
        if kind == 'list':
            exp = F((Term((), tuple(bs), tuple(dom), ONE, (seq,)),))
        else:
            f = spec['item'](it, seq)
            exp = F(Term(t.pb, tuple(bs) + tuple(t.ib), tuple(dom) + tuple(t.dom), t.coef, t.key) for t in f.ts).refresh()
        try:
            chk_equal(it, got, a0 + exp, 'items added by one step')
        except Fail as e:
            raise Undecided(f'one step of the loop: {getattr(e, "what", e)}')
        return True
    finally:
        it.pc = saved
