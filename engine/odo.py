"""Loops that walk depth-first over all integer vectors of a given length, with a stack of indices ("odometers").

Invariant (ghost): the walk is at a position in the lexicographic order of the vectors, either just before all vectors with
prefix `stack` ('lt') or just after them ('le'), and the accumulator holds its initial value plus the items of every vector
before that position.  Which of the two holds is found for each control state (stack depth, flags) and checked edge by
edge; the position strictly advances (or the depth moves the right way) on every edge, so that the walk terminates and
leaves no vector out.  The number of components is fixed by the contract instance; the range of each component is symbolic.
"""
import itertools
from .expr import *
from .sums import *
from . import interp as _i


def odometer(spec):
    """spec: n -- number of components;  ok(prefix) -> conditions for a prefix of a vector;  full(prefix) -> (binders, dom,
    vector): all completions;  item(it, vector) -> F;  kind: 'poly' (shape) | 'num' | 'list'"""
    def hook(it, s, env, mod):
        used = {x.id for x in ast_names(s)}
        stacks = [n for n, v in env.items() if n in used and isinstance(v, _i.ListV) and all(isinstance(x, E) for x in v.items)]
        kind = spec['kind']
        accs = [n for n, v in env.items() if n in used and (isinstance(v, _i.PolyV) if kind == 'poly' else isinstance(v, (E, _i.NumF)) if kind == 'num'
                else isinstance(v, _i.ListV))]
        an = _i.assigned_names(s)
        if kind == 'num':
            accs = [n for n in accs if n in an]
        last = None
        for st, acc in itertools.product(stacks, accs):
            if st == acc:
                continue
            for strict in (True, False):
              keep = list(it.pc)
              try:
                return walk(it, s, env, mod, spec, st, acc, an, strict)
              except Undecided as e:
                it.pc = keep
                last = Undecided(f'{last or ""} [{st}/{acc}: {e}]')
        raise last or Undecided('while loop: no stack and accumulator found')
    return hook


def ast_names(s):
    import ast
    return [x for x in ast.walk(s) if isinstance(x, ast.Name)]


def is_flag(v):
    return v is None or isinstance(v, (str, bool)) or isinstance(v, E) and v.is_const()


def flag_key(v):
    return ('E', v.cval()) if isinstance(v, E) else v


def more(spec, x):
    """some vector lies after all those with prefix x"""
    return c_or(*[c_and(*spec['ok'](list(x[:j]) + [x[j] + 1])) for j in range(len(x))])


def walk(it, s, env, mod, spec, st, acc, an, strict):
    n, kind = spec['n'], spec['kind']
    flags = sorted(x for x in an if x in env and x not in (st, acc) and is_flag(env[x]))
    base = list(it.pc)
    nodes = {}

    def key(d, fl):
        return d, tuple(flag_key(v) for v in fl)
    init = list(env[st].items)
    if len(init) > n or not all(valid(base, c_eq(x, ZERO)) for x in init) or not valid(base, c_and(*spec['ok'](init))):
        raise Undecided('initial stack')
    first = (len(init), [env[x] for x in flags])
    nodes[key(*first)] = 'lt'
    todo, exits = [first], 0
    steps = 0

    def maximal(pc, x, j):
        return not feasible(pc + list(spec['ok'](x[:j] + [x[j] + 1])))

    def fits(pc, after, emitted, x, cls, y):
        """is the position (cls, y) the one reached from x?"""
        d, e = len(x), len(y)
        same = lambda a, b: all(is_zero(p - q) or valid(pc, c_eq(p, q)) for p, q in zip(a, b))
        if e > n or not valid(pc, c_and(*spec['ok'](y))):
            return False
        if not after:
            return cls == 'lt' and e > d and same(x, y) and same(y[d:], [ZERO] * (e - d))
        if cls == 'le':
            if strict and not valid(pc, more(spec, y)):
                return False
            return (e < d or emitted and e == d) and same(x[:e], y) and all(maximal(pc, x, j) for j in range(e, d))
        for j in range(min(d, e)):      # next vector differs at component j
            if same(x[:j], y[:j]) and same([x[j] + 1], [y[j]]) and same(y[j + 1:], [ZERO] * (e - j - 1)) \
                    and all(maximal(pc, x, i) for i in range(j + 1, d)):
                return True
        return False
    while todo:
        d, fl = todo.pop()
        cls = nodes[key(d, fl)]
        steps += 1
        if steps > 60:
            raise Undecided('odometer states')
        x = [Sym(fresh('x'), True) for _ in range(d)]
        it.pc = base + list(spec['ok'](x)) + ([more(spec, x)] if strict and cls == 'le' else [])

        def thunk():
            e = dict(env)
            for v in an:
                e[v] = _i.Poison(v)
            it.frames.append(_i.Frame())
            try:
                e[st] = _i.ListV(list(x), it.depth)
                for f, v in zip(flags, fl):
                    e[f] = v
                if kind == 'poly':
                    a = _i.PolyV(fatom('ACC', (), spec['shape']), env[acc].keyfor, it.depth, name='ACC')
                elif kind == 'num':
                    a = Sym('ACC', False)
                else:
                    a = _i.ListV([E.const(-77)], it.depth)
                e[acc] = a
                if not it.truth(it.ev(s.test, e, mod)):
                    return 'exit', e, it.frames[-1]
                try:
                    it.block(s.body, e, mod)
                except _i.Continue:
                    pass
                except _i.Break:
                    return 'exit', e, it.frames[-1]
                except (_i.Returned, _i.PyRaise):
                    raise Undecided('exit inside the loop')
                return 'next', e, it.frames[-1]
            finally:
                it.frames.pop()
        try:
            res = it.all_paths(thunk)
            for guard, (what, e, fr) in res:
                if fr.delta or fr.sets or fr.appends or fr.raises or fr.events or fr.bags or fr.lists:
                    raise Undecided('effects in a while loop')
                pc = it.pc + guard
                if not feasible(pc):
                    continue
                y = e.get(st)
                if not isinstance(y, _i.ListV) or not all(isinstance(v, E) for v in y.items):
                    raise Undecided('stack')
                y = list(y.items)
                emitted = delta(it, pc, spec, kind, env[acc], e.get(acc), x)
                if emitted and cls == 'le':
                    raise Undecided('items added after the position')
                after = emitted or cls == 'le'
                if what == 'exit':
                    if not after or not all(maximal(pc, x, j) for j in range(d)):
                        raise Undecided('the walk ends early')
                    exits += 1
                    continue
                nf = [e.get(f) for f in flags]
                if not all(is_flag(v) for v in nf):
                    raise Undecided('control variables of the loop')
                k = key(len(y), nf)
                cand = [nodes[k]] if k in nodes else ['lt', 'le']
                for c in cand:
                    if fits(pc, after, emitted, x, c, y):
                        break
                else:
                    raise Undecided(f'odometer: position after the step from {cls} {x}')
                if k not in nodes:
                    nodes[k] = c
                    todo.append((len(y), nf))
        finally:
            it.pc = list(base)
    if not exits:
        raise Undecided('the walk does not end')
    bs, dom, vec = spec['full']([])
    if kind == 'list':
        from .interp import GenListV, LTuple
        old = env[acc]
        parts = [((), (), (), x) for x in old.items] + [((), tuple(bs), tuple(dom), LTuple(vec))]
        r = GenListV(parts, it.depth)
    else:
        f = over(bs, dom, spec['item'](it, vec))
        if kind == 'poly':
            r = _i.PolyV(env[acc].f + f, env[acc].keyfor, it.depth)
        else:
            r = it.num_add(env[acc], _i.norm_num(f))
    for v in an:
        env[v] = _i.Poison(v)
    env[st] = _i.Poison(st)
    env[acc] = r
    it.block(s.orelse, env, mod) if s.orelse else None
    return None


def over(bs, dom, f):
    return F(Term(t.pb, tuple(bs) + tuple(t.ib), tuple(dom) + tuple(t.dom), t.coef, t.key) for t in f.ts).refresh()


def delta(it, pc, spec, kind, init, after, x):
    """False: nothing was added; True: exactly the items of all vectors with prefix x"""
    from .unit import chk_equal, Fail
    if kind == 'poly':
        if not isinstance(after, _i.PolyV) or (after.keyfor is not init.keyfor and _i.eq_val(tuple(after.keyfor or ()), tuple(init.keyfor or ())) is not True):
            raise Undecided('accumulator')
        got, a0 = after.f, fatom('ACC', (), spec['shape'])
    elif kind == 'num':
        if not isinstance(after, (E, _i.NumF)):
            raise Undecided('accumulator')
        got, a0 = it.numf(after), fscalar(Sym('ACC', False))
    else:
        if isinstance(after, _i.GenListV):
            parts = after.parts
        elif isinstance(after, _i.ListV):
            parts = [((), (), (), v) for v in after.items]
        else:
            raise Undecided('accumulator')
        if not parts or parts[0][:3] != ((), (), ()) or parts[0][3] != E.const(-77):
            raise Undecided('accumulator')
        if any(not isinstance(p[3], _i.LTuple) and not isinstance(p[3], _i.ListV) for p in parts[1:]):
            raise Undecided('element is not a list')
        got = F(Term(p[0], p[1], p[2], ONE, tuple(p[3]) if isinstance(p[3], tuple) else tuple(p[3].items)) for p in parts[1:]).refresh()
        a0 = FZERO
    saved = it.pc
    it.pc = pc
    try:
        if repr(got) == repr(a0):
            return False
        bs, dom, vec = spec['full'](list(x))
        exp = F((Term((), tuple(bs), tuple(dom), ONE, tuple(vec)),)) if kind == 'list' else over(bs, dom, spec['item'](it, vec))
        try:
            chk_equal(it, got, a0 + exp, 'items added by one step')
        except Fail as e:
            try:
                chk_equal(it, got, a0, 'nothing added')
                return False
            except Fail:
                pass
            raise Undecided('one step of the loop: ' + e.what) if hasattr(e, 'what') else Undecided(f'one step of the loop: {e}')
        return True
    finally:
        it.pc = saved
