"""Tables of lower-order results: data-structure invariants.

Invariant of a table with atom A:  every stored entry T[key] equals A(key).  It is checked at every store.
`region` describes the keys that are present: a base condition followed by the stores and deletions made since.
Loops that fill a table get the invariant "all keys of the (two) previous orders are present" (or "of all previous
orders"); it is checked to hold initially and to be preserved by a generic iteration.
"""
import itertools
from .expr import *
from .sums import *
from .interp import *
from . import interp as _i


class KeyFilter:
    """the keys of a table satisfying a condition (result of a comprehension)"""
    depth = 0

    def __init__(self, table, dom):
        self.table, self.dom = table, dom        # dom: fn(idx) -> Cond


def exists(ib, dom, key, idx):
    """EXISTS ib. dom and key == idx   as a quantifier-free condition (the binders are solved for)"""
    if len(key) != len(idx):
        return FALSE
    eqs = [toE(a) - toE(b) for a, b in zip(key, idx)]
    un = set(ib)
    sol = {}
    prog = True
    while un and prog:
        prog = False
        for e in eqs:
            for b in sorted(un, key=lambda b: b.key):
                ar = e.lin(b) if b in e.bases() else None
                if ar and ar[0].is_const() and abs(ar[0].cval()) == 1:
                    v = ar[1] * E.const(-1 / ar[0].cval())
                    one = {b: v}
                    sol = {k: x.subst(one) for k, x in sol.items()}
                    sol[b] = v
                    un.discard(b)
                    eqs = [x.subst(one) for x in eqs]
                    prog = True
                    break
            if prog:
                break
    if un:
        raise Undecided('loop indices not determined by the table key')
    return c_and(*[c_eq(e, ZERO) for e in eqs if True], *[d.subst(sol) for d in dom])


def region_with(base, ops):
    def region(idx):
        c = base(idx)
        for op, ib, dom, key in ops:
            e = exists(ib, dom, key, idx)
            c = c_or(c, e) if op == 'add' else c_and(c, c_not(e))
        return c
    return region


def make_table(spec, base, depth):
    t = TableV(lambda it, idx: PolyV(fatom(spec['atom'], atom_args(spec, as_idx(idx, spec)), spec['shape']), spec['keyfor'], 0), None, depth, spec['atom'])
    t.base, t.ops, t.spec = base, [], spec
    t.region = lambda idx: region_with(t.base, t.ops)(tuple(toE(x) for x in as_idx(idx, spec))) if is_key(idx, spec) else FALSE
    return t


def as_idx(idx, spec):
    """a scalar key as a tuple of one index"""
    return (idx,) if spec.get('scalar') and isinstance(idx, E) else idx


def atom_args(spec, idx):
    return tuple(spec['args'](*idx)) if 'args' in spec else tuple(idx)


def is_key(idx, spec):
    if spec.get('scalar'):
        return isinstance(idx, E) or isinstance(idx, tuple) and len(idx) == 1 and isinstance(idx[0], E)
    return isinstance(idx, tuple) and len(idx) == spec['arity'] and all(isinstance(x, E) for x in idx)


def spec_for(it, t):
    sp = it.opts.get('table')
    sp = list(sp) if isinstance(sp, (list, tuple)) else [sp] if sp else []
    for s in sp:
        if all(is_key(k, s) for k, _ in t.d.values()):
            return s
    if sp:
        raise Undecided('table keys')
    return None


def check_entry(it, spec, idx, v):
    from .unit import chk_atom, chk_inv, Fail
    if not isinstance(v, PolyV):
        raise Undecided('table entry is not a polynomial')
    if spec['keyfor'] is not None and (v.keyfor is None or eq_val(tuple(v.keyfor), tuple(spec['keyfor'])) is not True):
        raise Fail(f'table entry {idx!r}: variable names', None)
    f = to_shape(it.getf(v), spec['shape'])
    idx = tuple(toE(x) for x in atom_args(spec, as_idx(idx, spec)))
    chk_atom(it, f, spec['atom'], idx, spec['shape'], f'table entry {idx!r}')
    chk_inv(it, f, spec['atom'], f'table entry {idx!r}', idx)


def as_table(it, t):
    if isinstance(t, TableV):
        return t
    spec = spec_for(it, t) if isinstance(t, DictV) else None
    if isinstance(t, DictV) and spec:
        sig = tuple(t.d)
        if getattr(t, 'tabsig', None) == sig:
            return t.tab
        keys, symkeys = [], []
        for k, v in t.d.values():
            if not is_key(k, spec):
                raise Undecided('table keys')
            k = as_idx(k, spec)
            if not all(x.is_const() for x in k):
                check_entry(it, spec, k, v)
                symkeys.append(k)
                continue
            saved = it.pc
            it.pc = []
            try:
                check_entry(it, spec, k, v)
            finally:
                it.pc = saved
            keys.append(tuple(int(x.cval()) for x in k))
        ks = set(keys)
        full = -1
        while all(c in ks for c in compositions(full + 1, spec['arity'])):
            full += 1
            if full > 4:
                break

        def base(idx):
            s = ZERO
            for x in idx:
                s = s + x
            c = c_and(*[c_le(ZERO, x) for x in idx], c_le(s, E.const(full)))
            return c_or(c, *[c_and(*[c_eq(x, E.const(y)) for x, y in zip(idx, k)]) for k in ks if sum(k) > full],
                        *[c_and(*[c_eq(x, y) for x, y in zip(idx, k)]) for k in symkeys])
        t.tab = make_table(spec, base, t.depth)
        t.tab.full = full
        t.tabsig = sig if not symkeys else None
        return t.tab
    raise Undecided('not a table')


def compositions(n, m):
    if m == 1:
        return [(n,)]
    return [(i,) + r for i in range(n + 1) for r in compositions(n - i, m - 1)]


def inv_candidates(spec, n, full=None):
    def all_prev(idx):
        s = ZERO
        for x in idx:
            s = s + x
        return c_and(*[c_le(ZERO, x) for x in idx], c_le(s, n - 1))

    def two_prev(idx):
        s = ZERO
        for x in idx:
            s = s + x
        return c_and(*[c_le(ZERO, x) for x in idx], c_le(s, n - 1), c_le(n - 2, s))

    def two_or_first(idx):
        s = ZERO
        for x in idx:
            s = s + x
        return c_and(*[c_le(ZERO, x) for x in idx], c_or(c_le(s, n - 1), c_le(s, E.const(full))), c_le(n - 2, s))
    return {'all': all_prev, 'two': two_prev, 'two+': two_or_first}


def table_loop(it, s, rng, env, mod):
    """`for` hook: outermost loop that fills one or several tables"""
    from .unit import Fail
    if not it.opts.get('table') or not isinstance(rng, RangeV) or rng.step != 1 or it.depth != 0 or it.iter_concrete(rng) is not None:
        return NotImplemented
    used = {x.id for x in ast.walk(s) if isinstance(x, ast.Name)}
    groups = {}
    for n, v in env.items():
        if n in used and isinstance(v, (DictV, TableV)):
            groups.setdefault(id(v), []).append(n)
    if not groups:
        return NotImplemented
    lo, hi = rng.lo, rng.hi
    groups = [(ns, as_table(it, env[ns[0]])) for ns in groups.values()]
    names = [n for ns, _ in groups for n in ns]
    if not it.branch(c_lt(lo, hi)):
        for ns, t0 in groups:
            for n in ns:
                env[n] = t0
        return None
    lists, lspec = {}, it.opts.get('list')
    if lspec:
        for n in env:
            if n in used and isinstance(env[n], ListV) and env[n].items and all(isinstance(x, PolyV) for x in env[n].items):
                for j, x in enumerate(env[n].items):
                    list_check(it, lspec, E.const(j), x)
                lists[n] = len(env[n].items)
    b = symbase(fresh('n'), True)
    v = E.base(b)
    last = None
    kinds = [('all', 'two') + (('two+',) if getattr(t0, 'full', None) is not None else ()) + (('start',) if len(groups) > 1 else ())
             for _, t0 in groups]
    for ks in itertools.product(*kinds):
        try:
            invs = [candidate(t0, k, lo) for (_, t0), k in zip(groups, ks)]
            gone = run_inv(it, s, groups, env, mod, invs, lo, hi, v, ks, lists)
            for (ns, t0), inv in zip(groups, invs):
                tf = make_table(t0.spec, inv(hi), it.depth)
                for n in ns:
                    env[n] = Poison(n) if gone else tf
            for n in assigned_names(s):
                if n not in names:
                    env[n] = Poison(n)
            for n in lists:
                env[n] = sym_list(it, lspec, E.const(lists[n]) + hi - lo, it.depth)
            it.table_inv = '/'.join(ks)
            return None
        except (Undecided, Fail) as e:
            last = e if last is None or isinstance(last, Fail) else last
    raise last


def candidate(t0, kind, lo):
    """invariant of the table before iteration v, as a function of v giving the keys that are present"""
    if kind == 'start':
        return lambda v: lambda idx: c_and(c_eq(v, lo), t0.region(idx))
    return lambda v: inv_candidates(t0.spec, v, getattr(t0, 'full', None))[kind]


def run_inv(it, s, groups, env, mod, invs, lo, hi, v, kinds, lists):
    """invariant of a loop filling tables (and, alongside, lists of results); true: the table is deleted in the last iteration"""
    lspec = it.opts.get('list')
    names = [n for ns, _ in groups for n in ns]
    for (ns, t0), inv in zip(groups, invs):
        idx = tuple(Sym(fresh('q'), True) for _ in range(t0.spec['arity']))
        if not valid(it.pc + [inv(lo)(idx)], t0.region(idx)):
            raise Undecided('table invariant does not hold initially')
    base = list(it.pc)
    it.pc = base + [c_le(lo, v), c_lt(v, hi)]
    an = assigned_names(s)

    def thunk():
        e = dict(env)
        for n in an:
            if n in e and n not in names:
                e[n] = Poison(n)
        it.frames.append(Frame())
        try:
            ts = []
            for (ns, t0), inv in zip(groups, invs):
                t = make_table(t0.spec, inv(v), it.depth)
                ts.append(t)
                for n in ns:
                    e[n] = t
            for n in lists:
                e[n] = sym_list(it, lspec, E.const(lists[n]) + v - lo, it.depth)
            objs = {n: e[n] for n in lists}
            try:
                it.assign(s.target, v, e, mod)
                it.block(s.body, e, mod)
                st = 'ok'
            except Continue:
                st = 'ok'
            except Break:
                st = 'break'
            except Returned:
                st = 'return'
            except PyRaise as x:
                st = 'raise ' + str(x.exc)
            same = all(e.get(n) is o and not (o.length - (E.const(lists[n]) + v + 1 - lo)).t for n, o in objs.items())
            nv = [[e.get(n) for n in ns] for ns, _ in groups]
            return st, ts, it.frames[-1], nv, same
        finally:
            it.frames.pop()
    gone = False
    try:
        for guard, (st, ts, fr, nv, same) in it.all_paths(thunk):
            pc = it.pc + guard
            dead = all(x is None for g in nv for x in g)
            if st != 'ok' or fr.delta or fr.appends or fr.events or not dead and any(x is not t for g, t in zip(nv, ts) for x in g) or not same:
                raise Undecided(f'loop filling a table: {st}')
            if fr.raises:
                raise Undecided('loop filling a table may raise')
            if dead:
                if not valid(pc, c_eq(v + 1, hi)):
                    raise Undecided('table deleted before the last iteration')
                gone = True
                continue
            for t, inv, kind in zip(ts, invs, kinds):
                q = tuple(Sym(fresh('q'), True) for _ in range(t.spec['arity']))
                if not valid(pc + [inv(v + 1)(q)], t.region(q)):
                    raise Undecided(f'table invariant ({kind}) not preserved')
    finally:
        it.pc = base
    return gone


def table_set(it, t, idx, v):
    if not is_key(idx, t.spec):
        raise Undecided('table key')
    idx = as_idx(idx, t.spec)
    check_entry(it, t.spec, idx, v)
    if t.depth >= it.depth:
        t.ops.append(('add', (), (), idx))
    else:
        it.frames[-1].sets.append((t, 'add', (), (), idx))


def table_del(it, t, idx):
    idx = as_idx(idx, t.spec)
    if not valid(it.pc, t.region(idx)):
        ok = any(getattr(a, 'kf', None) is t for a in it.active_filters)
        if not ok:
            raise Undecided('deletion of a possibly missing table entry')
    if t.depth >= it.depth:
        t.ops.append(('del', (), (), idx))
    else:
        it.frames[-1].sets.append((t, 'del', (), (), idx))


def key_filter(it, n, sc, env, mod, kind):
    """comprehension hook: [key for key in table if cond]"""
    src = sc.it
    if isinstance(src, TableV) and len(n.generators) == 1:
        t, base = src, None
    elif isinstance(src, ViewV) and isinstance(src.poly, TableV) and src.kind == 'keys':
        t, base = src.poly, None
    else:
        return NotImplemented
    idx = tuple(Sym(fresh('q'), True) for _ in range(t.spec['arity']))
    e = dict(env)
    it.assign(sc.g.target, idx, e, mod)

    def thunk():
        for c in sc.g.ifs:
            if not it.truth(it.ev(c, e, mod)):
                return False
        el = it.ev(n.elt, e, mod)
        if eq_val(el, idx) is not True:
            raise Undecided('comprehension over table keys')
        return True
    conds = [c_and(*g) if g else TRUE for g, r in it.all_paths(thunk) if r]
    bs = [list(x.bases())[0] for x in idx]

    def dom(q):
        return c_or(*[c.subst(dict(zip(bs, q))) for c in conds]) if conds else FALSE
    return KeyFilter(t, dom)


# ------------------------------------------------------------------ lists and running polynomials  M[j] == atom(j)
def sym_list(it, spec, length, depth):
    t = SymListV(length, lambda it2, i: PolyV(fatom(spec['atom'], (i,) + spec.get('more', ()), spec['shape']), spec['keyfor'], 0), depth)
    t.spec = spec
    t.mutated = False
    return t


def flat_entry(p):
    v = [x.cval() for x in p]
    return min(v[:-1]) >= 0 and sum(v[:-1]) >= 1 and v[-1] >= 1


def to_shape(f, shape):
    """flat literal keys (i, (n, m), ...) in their denotation"""
    if not shape or shape == ('V',):
        return f
    if 'T' in shape:
        def comp(k, sh):
            if sh != 'T' or isinstance(k, Bag):
                return k
            if not isinstance(k, tuple) or not k or not all(isinstance(x, tuple) and len(x) == 3 for x in k):
                raise Undecided('literal key')
            return Bag((), k)
        return F(Term(t.pb, t.ib, t.dom, t.coef, tuple(comp(k, sh) for k, sh in zip(t.key, shape)))
                 if isinstance(t.key, tuple) and len(t.key) == len(shape) else t for t in f.ts)
    if shape[-1] not in ('J', 'Q'):
        return f
    w = 2 if shape[-1] == 'J' else 4
    n = len(shape) - 1
    out = []
    for t in f.ts:
        if len(t.key) == n + 1 and isinstance(t.key[-1], Bag):
            out.append(t)
            continue
        ps = t.key[n:]
        if not all(isinstance(p, tuple) and len(p) == w and all(isinstance(x, E) and x.is_const() for x in p) and flat_entry(p) for p in ps):
            raise Undecided('flat key')
        out.append(Term(t.pb, t.ib, t.dom, t.coef, t.key[:n] + (Bag((), tuple((p[0] if w == 2 else p[:3], ZERO, p[-1]) for p in ps)),)))
    return F(out)


def as_list(it, spec, lst):
    """the list argument of a contract: entry j is the atom of order j"""
    if isinstance(lst, SymListV):
        return lst
    if not isinstance(lst, ListV):
        raise Undecided('list of polynomials')
    for j, x in enumerate(lst.items):
        list_check(it, spec, E.const(j), x)
    return sym_list(it, spec, E.const(len(lst.items)), 0)


def list_check(it, spec, j, v):
    from .unit import chk_atom, chk_inv, Fail
    if not isinstance(v, PolyV):
        raise Undecided('list entry is not a polynomial')
    if spec['keyfor'] is not None:
        if v.keyfor is None or eq_val(tuple(v.keyfor), tuple(spec['keyfor'])) is not True:
            raise Fail(f'list entry {j!r}: variable names', None)
    f = to_shape(it.getf(v), spec['shape'])
    chk_atom(it, f, spec['atom'], (j,) + spec.get('more', ()), spec['shape'], f'list entry {j!r}')
    chk_inv(it, f, spec['atom'], f'list entry {j!r}', (j,) + spec.get('more', ()))


def list_append(it, t, v):
    if t.depth < it.depth:
        raise Undecided('append in a nested symbolic loop')
    list_check(it, t.spec, t.length, v)
    t.length = t.length + 1


def list_loop(it, s, rng, env, mod):
    from .unit import Fail, chk_atom
    spec = it.opts.get('list')
    if not spec or not isinstance(rng, RangeV) or rng.step != 1 or it.depth != 0 or it.iter_concrete(rng) is not None:
        return NotImplemented
    used = {x.id for x in ast.walk(s) if isinstance(x, ast.Name)}
    an = assigned_names(s)
    lists = [n for n in env if n in used and isinstance(env[n], ListV) and env[n].items
             and all(isinstance(x, PolyV) for x in env[n].items)]
    runs = {}
    for n in an:
        v = env.get(n)
        if isinstance(v, PolyV):
            for j in range(4):
                try:
                    list_check(it, spec, E.const(j), v)
                    runs[n] = j
                    break
                except (Fail, Undecided):
                    continue
    if not lists and not runs:
        return NotImplemented
    lo, hi = rng.lo, rng.hi
    if not it.branch(c_lt(lo, hi)):
        return None
    base = list(it.pc)
    b = symbase(fresh('n'), True)
    v = E.base(b)
    L = {}
    for n in lists:
        for j, x in enumerate(env[n].items):
            list_check(it, spec, E.const(j), x)
        L[n] = len(env[n].items)

    def attempt(runs):
        it.pc = base + [c_le(lo, v), c_lt(v, hi)]

        def thunk():
            e = dict(env)
            for n in an:
                e[n] = Poison(n)
            it.frames.append(Frame())
            try:
                for n in lists:
                    e[n] = sym_list(it, spec, E.const(L[n]) + v - lo, it.depth)
                for n, j in runs.items():
                    e[n] = PolyV(fatom(spec['atom'], (E.const(j) + v - lo,) + spec.get('more', ()), spec['shape']), spec['keyfor'], it.depth)
                objs = {n: e[n] for n in lists}
                st = 'ok'
                try:
                    it.assign(s.target, v, e, mod)
                    it.block(s.body, e, mod)
                except Continue:
                    pass
                except (Break, Returned):
                    st = 'break'
                except PyRaise as x:
                    st = 'raise'
                return st, e, it.frames[-1], objs
            finally:
                it.frames.pop()
        try:
            res = it.all_paths(thunk)
            for guard, (st, e, fr, objs) in res:
                if st != 'ok' or fr.delta or fr.events or fr.sets or fr.appends or fr.raises:
                    raise Undecided('loop building a list')
                saved = it.pc
                it.pc = it.pc + guard
                try:
                    for n in lists:
                        if e[n] is not objs[n] or (e[n].length - (E.const(L[n]) + v + 1 - lo)).t:
                            raise Undecided('list length')
                    for n, j in runs.items():
                        list_check(it, spec, E.const(j) + v + 1 - lo, e[n])
                finally:
                    it.pc = saved
            return res
        finally:
            it.pc = list(base)
    try:
        res = attempt(runs)
    except (Fail, Undecided):
        if not runs:
            raise
        res = attempt({})
        runs = {}
    for n in lists:
        env[n] = sym_list(it, spec, E.const(L[n]) + hi - lo, it.depth)
    mp = {b: hi - 1}
    for n in an:
        env[n] = Poison(n)
        if n in runs:
            env[n] = PolyV(fatom(spec['atom'], (E.const(runs[n]) + hi - lo,) + spec.get('more', ()), spec['shape']), spec['keyfor'], it.depth)
        elif len(res) == 1 and not res[0][0]:
            x = res[0][1][1].get(n)
            if isinstance(x, PolyV):
                env[n] = PolyV(x.f.subst(mp), x.keyfor, it.depth)
            elif isinstance(x, E):
                env[n] = x.subst(mp)
    return None
