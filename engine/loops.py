"""Loops verified with a loop invariant supplied by the contract.

ghost_loop: scalar accumulators.  The invariant gives the values of the modified variables as a function of the iteration
number j (state), together with side conditions; the contract also gives the state after one more iteration with the
recurrences of its ghost functions unfolded (next).  Checked: it holds on entry, every iteration preserves it, and (while
loops) a rank decreases.  Variables are matched with the templates by value, not by name.
"""
import itertools
from .expr import *
from .sums import *
from .interp import *
from . import interp as _i


def assign_vars(env, names, templates):
    names = [n for n in names if isinstance(env.get(n), E)]
    for k in range(len(templates), len(templates) + 1):
        for p in itertools.permutations(names, k):
            yield dict(zip(p, templates))


def ghost_while(spec):
    def hook(it, s, env, mod):
        an = _i.assigned_names(s)
        j0 = ZERO
        last = None
        n = len(spec['state'](j0))
        names = [x for x in an if isinstance(env.get(x), E)]
        for perm in itertools.permutations(names, n):
            try:
                return attempt(it, s, env, mod, spec, perm, an)
            except Undecided as e:
                last = e
        raise last or Undecided('while loop: no invariant fits')
    return hook


def hold(it, cs):
    return all(valid(it.pc, c) for c in cs)


def attempt(it, s, env, mod, spec, perm, an):
    st0 = spec['state'](ZERO)
    if not hold(it, spec['conds'](ZERO)) or not all(is_zero(env[v] - x) or valid(it.pc, c_eq(env[v], x)) for v, x in zip(perm, st0)):
        raise Undecided('loop invariant does not hold on entry')
    b = symbase(fresh('j'), True)
    j = E.base(b)
    base = list(it.pc)
    it.pc = base + spec['conds'](j)

    def start():
        e = dict(env)
        for v in an:
            e[v] = _i.Poison(v)
        for v, x in zip(perm, spec['state'](j)):
            e[v] = x
        return e

    def thunk():
        e = start()
        it.frames.append(_i.Frame())
        try:
            if not it.truth(it.ev(s.test, e, mod)):
                return None
            try:
                it.block(s.body, e, mod)
            except _i.Continue:
                pass
            except (_i.Break, _i.Returned, _i.PyRaise):
                raise Undecided('exit inside the loop')
            return e, it.frames[-1]
        finally:
            it.frames.pop()
    try:
        for guard, r in it.all_paths(thunk):
            if r is None:
                continue
            e, fr = r
            if fr.delta or fr.sets or fr.appends or fr.raises or fr.events or fr.bags:
                raise Undecided('effects in a while loop')
            pc = it.pc + guard
            if not all(valid(pc, c) for c in spec['conds'](j + 1)):
                raise Undecided('loop condition not preserved')
            for v, x in zip(perm, spec['next'](j)):
                if not isinstance(e.get(v), E) or not (is_zero(e[v] - x) or valid(pc, c_eq(e[v], x))):
                    raise Undecided(f'loop invariant of {v} not preserved')
            rk = spec['rank']
            if not valid(pc, c_and(c_le(ZERO, rk(j)), c_lt(rk(j + 1), rk(j)))):
                raise Undecided('rank does not decrease')
    finally:
        it.pc = base
    # after the loop
    it.pc.extend(spec['conds'](j))
    e = start()
    t = it.ev(s.test, e, mod)
    if not isinstance(t, Cond):
        raise Undecided('loop condition')
    it.pc.append(c_not(t))
    if 'exit' in spec:
        if not valid(it.pc, c_eq(j, spec['exit']())):
            raise Undecided('number of iterations')
        it.pc.append(c_eq(j, spec['exit']()))
    for v in an:
        env[v] = e[v]
    it.block(s.orelse, env, mod)
    return None


def ghost_for(spec):
    def hook(it, s, itv, env, mod):
        if not isinstance(itv, _i.OpaqueSeq) or itv.name != spec['seq']:
            return NotImplemented
        an = _i.assigned_names(s)
        n = len(spec['state'](ZERO))
        names = [x for x in an if isinstance(env.get(x), E)]
        last = None
        for perm in itertools.permutations(names, n):
            try:
                return attempt_for(it, s, itv, env, mod, spec, perm, an)
            except Undecided as e:
                last = e
        raise last or Undecided('loop: no invariant fits')
    return hook


def attempt_for(it, s, itv, env, mod, spec, perm, an):
    if s.orelse:
        raise Undecided('for-else')
    st0 = spec['state'](ZERO)
    if not hold(it, spec['conds'](ZERO)) or not all(is_zero(env[v] - x) or valid(it.pc, c_eq(env[v], x)) for v, x in zip(perm, st0)):
        raise Undecided('loop invariant does not hold on entry')
    b = symbase(fresh('j'), True)
    j = E.base(b)
    base = list(it.pc)
    it.pc = base + spec['conds'](j) + [c_le(ZERO, j), c_lt(j, itv.length)] + spec['elem_conds'](j)

    def thunk():
        e = dict(env)
        for v in an:
            e[v] = _i.Poison(v)
        for v, x in zip(perm, spec['state'](j)):
            e[v] = x
        it.frames.append(_i.Frame())
        try:
            it.assign(s.target, itv.get(it, j), e, mod)
            try:
                it.block(s.body, e, mod)
            except _i.Continue:
                pass
            except (_i.Break, _i.Returned, _i.PyRaise):
                raise Undecided('exit inside the loop')
            return e, it.frames[-1]
        finally:
            it.frames.pop()
    try:
        for guard, (e, fr) in it.all_paths(thunk):
            if fr.delta or fr.sets or fr.appends or fr.raises or fr.events or fr.bags:
                raise Undecided('effects in the loop')
            pc = it.pc + guard
            if not all(valid(pc, c) for c in spec['next_conds'](j)):
                raise Undecided('loop condition not preserved')
            for v, x in zip(perm, spec['next'](j)):
                if not isinstance(e.get(v), E) or not (is_zero(e[v] - x) or valid(pc, c_eq(e[v], x))):
                    raise Undecided(f'loop invariant of {v} not preserved')
    finally:
        it.pc = base
    L = itv.length
    it.pc.extend(spec['conds'](L))
    for v in an:
        env[v] = _i.Poison(v)
    for v, x in zip(perm, spec['state'](L)):
        env[v] = x
    return None


def index_loop(spec):
    """for i in range(len(v)), for x in v: over the components of an index vector v of symbolic length (StackV).  spec: vars -- number of
    state variables; start(v) -> values; state(v, j) -> values before iteration j; facts(v, j) -> definition of the ghost
    functions at j + 1; conds(v, j) -> what is known of component j; step(v, j, pc) -> values after iteration j."""
    def hook(it, s, itv, env, mod):
        if s.orelse:
            return NotImplemented
        if isinstance(itv, _i.StackV):
            vecs, hi, target = [itv], itv.length(), lambda j: itv.get(it, j)
        elif isinstance(itv, _i.RangeV) and itv.step == 1 and is_zero(itv.lo):
            vecs, hi, target = list({repr(v): v for v in env.values() if isinstance(v, _i.StackV)}.values()), itv.hi, lambda j: j
        else:
            return NotImplemented
        for v in vecs:
            if v.head is None and valid(it.pc, c_eq(hi, v.length())):
                for i in range(len(v.items)):
                    it.assign(s.target, target(E.const(i)), env, mod)
                    try:
                        it.block(s.body, env, mod)
                    except _i.Continue:
                        pass
                    except _i.Break:
                        break
                return None
        vecs = [v for v in vecs if v.head is not None and valid(it.pc, c_eq(hi, v.length()))]
        an = _i.assigned_names(s)
        names = sorted(x for x in an if x in env and not isinstance(env[x], _i.Poison) and isinstance(env[x], spec.get('types', E)))
        last = None
        for v in vecs:
            for perm in itertools.permutations(names, spec['vars']):
                try:
                    return index_attempt(it, s, hi, target, env, mod, spec, v, perm, an)
                except Undecided as e:
                    last = e
        if last:
            raise last
        return NotImplemented
    return hook


def index_attempt(it, s, hi, target, env, mod, spec, v, perm, an):
    same = spec.get('same') or (lambda it, pc, a, b: isinstance(a, E) and (is_zero(a - b) or valid(pc, c_eq(a, b))))
    if not all(same(it, it.pc, env[x], y) for x, y in zip(perm, spec['start'](v))):
        raise Undecided('loop invariant does not hold on entry')
    b = symbase(fresh('j'), True)
    j = E.base(b)
    base = list(it.pc)
    it.pc = base + [c_le(ZERO, j), c_lt(j, hi)] + list(spec['facts'](v, j)) + list(spec['conds'](v, j))
    n0 = len(it.pc)

    def thunk():
        e = dict(env)
        for x in an:
            e[x] = _i.Poison(x)
        for x, y in zip(perm, spec['state'](v, j)):
            e[x] = spec['make'](it, y) if 'make' in spec else y
        it.frames.append(_i.Frame())
        try:
            it.assign(s.target, target(j), e, mod)
            try:
                it.block(s.body, e, mod)
            except _i.Continue:
                pass
            except (_i.Break, _i.Returned, _i.PyRaise):
                raise Undecided('exit inside the loop')
            return e, it.frames[-1]
        finally:
            it.frames.pop()
    try:
        for guard, (e, fr) in it.all_paths(thunk):
            if fr.delta or fr.sets or fr.appends or fr.raises or fr.events or fr.bags:
                raise Undecided('effects in the loop')
            pc = it.pc + guard
            if not feasible(pc):
                continue
            for x, y in zip(perm, spec['step'](v, j, pc)):
                if not same(it, pc, e.get(x), y):
                    raise Undecided(f'loop invariant of {x} not preserved')
    finally:
        it.pc = base
    for x in an:
        env[x] = _i.Poison(x)
    for x, y in zip(perm, spec['state'](v, v.length())):
        env[x] = spec['make'](it, y) if 'make' in spec else y
    return None
