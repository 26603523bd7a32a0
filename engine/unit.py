"""Verification units: one function under contract, its obligations, and the concrete replay of a failed obligation."""
import json, os, random, signal, time, traceback
from .expr import *
from .sums import *
from .sums import reset_names
from .interp import *
from . import concrete as cc
from . import sums as _s

CONTRACTS = {}      # qualname -> fn(interp, *args) -> value        (the contract, used at call sites and as the goal)
DEFS = {}           # atom name -> fn(args) -> F or None              (mathematical definition, for constant arguments)
ATOM_REAL = {}      # atom name -> fn(*python args) -> dict           (value of an atom by running the real code)
UNITS = {}
ATOM_DEF = {}       # atom name -> fn(*args) -> F: unconditional definition (the atom stays opaque while that suffices)


def _def_prod(args):
    cnt, a = args
    if not (isinstance(cnt, E) and cnt.is_const()) or cnt.cval() > 3 or any(x != 'i' for x in a.shape):
        return None
    r = fmono(ONE, (ZERO,) * len(a.shape))
    for i in range(int(cnt.cval())):
        x = a.subst({IDX: E.const(i)})
        r = fmul(r, fatom(x.name, x.args, x.shape), key_add)
    return r


def _def_pow(args):
    a, n = args
    if not (isinstance(a, PAtom) and isinstance(n, E) and n.is_const() and 0 <= n.cval() <= 3) or any(x != 'i' for x in a.shape) \
            or not const_args(a.args):
        return None
    r = fmono(ONE, (ZERO,) * len(a.shape))
    for _ in range(int(n.cval())):
        r = fmul(r, fatom(a.name, a.args, a.shape), key_add)
    return r


def const_args(xs):
    return all(const_args(x) if isinstance(x, tuple) else isinstance(x, E) and x.is_const() for x in xs)


DEFS['prod'] = _def_prod
DEFS['pow'] = _def_pow
TRUSTED = {}        # qualname -> reason: contract assumed, not verified


class Unit:
    def __init__(self, qual, setup, goal=None, opts=None, gen=None, spec=None, name=None, tries=40, keyshape=None,
                 real_call=None, compare=None, bounded=None, variant='', ranges=None, csetup=None, cost=1, cspec=None):
        self.qual, self.setup, self.goal = qual, setup, goal
        self.opts = opts or {}
        self.gen = gen or {}            # param polynomial name -> fn(rnd) -> key (python)
        self.spec = spec                # defaults to the contract
        self.name = name or qual + (f'[{variant}]' if variant else '')
        self.tries, self.keyshape = tries, keyshape
        self.real_call, self.compare = real_call, compare
        self.bounded = bounded          # text: in which dimension the unit is bounded (None: unbounded)
        self.ranges = ranges or {}
        self.cost = cost
        self.cspec = cspec              # contract in the form used by concrete runs
        self.csetup = csetup            # setup used for concrete runs (same contract, concrete key arity)
        UNITS[self.name] = self

    def get_spec(self):
        return self.spec or CONTRACTS[self.qual]


def contract(qual):
    def d(fn):
        CONTRACTS[qual] = fn
        return fn
    return d


def find_func(qual):
    mod, fn = qual.rsplit('.', 1)
    if mod.endswith('.Poly'):
        m = Module.get(mod[:-5])
        for n in reversed(m.classes['Poly'].body):
            if isinstance(n, ast.FunctionDef) and n.name == fn:
                return FuncV(m, n, 'Poly.' + fn)
        raise Undecided(f'{qual} not found')
    m = Module.get(mod)
    f = m.lookup(fn)
    if not isinstance(f, FuncV):
        raise Undecided(f'{qual} not found')
    return f


_SIG = None


def same_signature(qual, fv):
    """the leading parameters are the ones the contract was written for"""
    global _SIG
    if _SIG is None:
        try:
            _SIG = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'contracts', 'signatures.json')))
        except OSError:
            _SIG = {}
    a = fv.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    want = _SIG.get(qual)
    if want is None:
        return True
    nd = len(a.defaults)
    return names[:len(want)] == want and len(names) - len(want) <= nd and not (a.vararg or a.kwarg or a.kwonlyargs)


class Outcome:
    def __init__(self, kind, value, raises, frame):
        self.kind, self.value, self.raises, self.frame = kind, value, raises, frame


def run_thunk(it, fn):
    it.frames = [Frame()]
    it.active = []
    it.calldepth = 0
    it.callid = 0
    try:
        v = fn()
        return Outcome('value', v, it.frames[0].raises, it.frames[0])
    except PyRaise as e:
        return Outcome('raise', e.exc, it.frames[0].raises, it.frames[0])


def raises_f(rs):
    return F(Term(r[0], r[1], tuple(c for c in r[2] if not any(b.key.startswith('w!') for b in c.bases())), ONE, ()) for r in rs)


class Fail(Exception):
    def __init__(self, what, model=None, raising=False):
        self.what, self.model = what, model


def expand_defs(f, names=None):
    """replace every atom with an unconditional definition by it"""
    out, work, n = [], list(f.ts), 0
    while work:
        t = work.pop()
        n += 1
        if n > 5000:
            raise Undecided('too many terms')
        for j, (a, bs) in enumerate(t.pb):
            if a.name in ATOM_DEF and (names is None or a.name in names):
                d = ATOM_DEF[a.name](*a.args)
                if d is None:
                    continue
                rest = t.pb[:j] + t.pb[j + 1:]
                for u in d.refresh().ts:
                    nt = Term(rest, t.ib, t.dom, t.coef, t.key).subst(match_bases(bs, u.key, a.shape))
                    work.append(Term(u.pb + nt.pb, u.ib + nt.ib, u.dom + nt.dom, u.coef * nt.coef, nt.key))
                break
        else:
            out.append(t)
    return F(tuple(out))


PARTIAL = set()      # defined atoms that stay opaque for some arguments


def def_names(f):
    return {a.name for t in f.ts for a, _ in t.pb if a.name in ATOM_DEF and (a.name not in PARTIAL or ATOM_DEF[a.name](*a.args) is not None)}


def chk_equal(it, f, g, what):
    """f == g, with defined atoms opaque at first, then one after the other expanded, highest level first"""
    r, n = None, 0
    f, g = seq_keys(f, g)
    if def_names(f) | def_names(g):
        mp = {b: v for b, v in eq_solutions(it.pc).items() if v.is_const()}
        if mp:
            f, g = f.subst(mp), g.subst(mp)
    while True:
        try:
            r = equal(f, g, it.pc, DEFS)
            if r is None:
                return
            und = None
        except Undecided as e:
            und = e
        a, b = def_names(f), def_names(g)
        if not (a or b) or n > 30:
            break
        n += 1
        order = list(ATOM_DEF)
        one = {max(a ^ b or a | b, key=order.index)}            # later definitions are built from earlier ones
        f, g = expand_defs(f, one), expand_defs(g, one)
    if und is not None:
        raise und
    raise Fail(f'{what}: {r.why}', r.model)


def seq_keys(*fs):
    """literal tuples as sequences in the key components where the other terms have sequences"""
    pos = {(len(t.key), i) for f in fs for t in f.ts if isinstance(t.key, tuple) for i, k in enumerate(t.key) if isinstance(k, SeqV)}
    if not pos:
        return fs

    def one(k):
        if not isinstance(k, tuple):
            return k
        return tuple(SeqV(tuple(('e', x) for x in c)) if (len(k), i) in pos and isinstance(c, tuple) and all(isinstance(x, E) for x in c) else c
                     for i, c in enumerate(k))
    return tuple(f.mapkey(one) for f in fs)


def plainly_nonzero(f, pc):
    """every coefficient is a non-zero constant and no two terms share a key"""
    ts = f.ts
    if any(t.pb or t.ib or t.dom or not t.coef.is_const() or is_zero(t.coef) for t in ts):
        return False
    for i, a in enumerate(ts):
        for b in ts[:i]:
            if not (isinstance(a.key, tuple) and isinstance(b.key, tuple) and len(a.key) == len(b.key)):
                return False
            if not any(isinstance(x, E) and isinstance(y, E) and valid(pc, c_not(c_eq(x, y))) for x, y in zip(a.key, b.key)):
                return False
    return True


def model_of(pc):
    s = mksolver(pc)
    if zcheck(s) == z3.sat:
        return s.model()
    return None


def same_names(a, b):
    if isinstance(a, StrSeq) or isinstance(b, StrSeq):
        return eq_val(a, b) if type(a) is type(b) else False
    return eq_val(tuple(a), tuple(b))


def cmp_val(it, a, b, what='result'):
    """obligation a == b under it.pc"""
    if isinstance(b, PolyV):
        if not isinstance(a, PolyV):
            raise Fail(f'{what}: not a polynomial', model_of(it.pc))
        if b.keyfor is not None:
            if a.keyfor is None:
                raise Undecided('unknown variable names')
            c = same_names(a.keyfor, b.keyfor)
            if c is not True and (c is False or not valid(it.pc, c)):
                raise Fail(f'{what}: variable names {a.keyfor!r} instead of {b.keyfor!r}', model_of(it.pc))
        if b.nozero == 'need' and not a.nozero and not plainly_nonzero(a.f, it.pc):
            raise Fail(f'{what}: zero coefficients not removed', model_of(it.pc))
        at = pure_atom(b.f)
        if at is not None and 'T' in at.shape:
            from .tables import to_shape
            a = PolyV(to_shape(it.getf(a), at.shape), a.keyfor, a.depth, nozero=a.nozero)
        if at is not None and at.name in UNFOLD:
            chk_atom(it, a.f, at.name, at.args, at.shape, what)
        else:
            chk_equal(it, a.f, b.f, what)
        if at is not None:
            chk_inv(it, a.f, at.name, what, at.args)
        return
    if isinstance(b, SymListV):
        n = E.const(len(a.items)) if isinstance(a, ListV) else a.length if isinstance(a, SymListV) else None
        if n is None:
            raise Fail(f'{what}: {type(a).__name__} instead of a list', model_of(it.pc))
        if not valid(it.pc, c_eq(n, b.length)):
            raise Fail(f'{what}: {n!r} elements instead of {b.length!r}', model_of(it.pc + [c_not(c_eq(n, b.length))]))
        if isinstance(a, ListV):
            for j, x in enumerate(a.items):
                cmp_val(it, x, b.fn(it, E.const(j)), f'{what}[{j}]')
            return
        i = Sym(fresh('j'), True)
        saved = it.pc
        it.pc = it.pc + [c_le(ZERO, i), c_lt(i, n)]
        try:
            if feasible(it.pc):
                cmp_val(it, a.fn(it, i), b.fn(it, i), f'{what}[{i!r}]')
        finally:
            it.pc = saved
        return
    if isinstance(b, (E, NumF)) and not isinstance(b, bool):
        if isinstance(a, bool):
            a = E.const(int(a))
        if not isinstance(a, (E, NumF)):
            raise Fail(f'{what}: {type(a).__name__} instead of a number', model_of(it.pc))
        chk_equal(it, it.numf(a), it.numf(b), what)
        return
    if isinstance(b, (tuple, ListV, SeqV)):
        ia = it.iter_concrete(a) if isinstance(a, (tuple, ListV, SeqV)) else None
        ib = it.iter_concrete(b)
        if ia is None or ib is None:
            c = eq_val(a, b)
            if c is True or (c is not False and valid(it.pc, c)):
                return
            raise Fail(f'{what}: {a!r} instead of {b!r}', model_of(it.pc))
        if len(ia) != len(ib):
            raise Fail(f'{what}: {len(ia)} elements instead of {len(ib)}', model_of(it.pc))
        for i, (x, y) in enumerate(zip(ia, ib)):
            cmp_val(it, x, y, f'{what}[{i}]')
        return
    if isinstance(b, Bag):
        if isinstance(a, BagSeq):
            a = a.as_bag(it)
        if isinstance(a, Bag) and bag_same(it, a, b):
            return
        if not (isinstance(a, Bag) and a == b):
            raise Fail(f'{what}: {a!r} instead of {b!r}', model_of(it.pc))
        return
    if isinstance(b, Cond) or isinstance(a, Cond):
        ca = a if isinstance(a, Cond) else (TRUE if a else FALSE)
        cb = b if isinstance(b, Cond) else (TRUE if b else FALSE)
        if not (valid(it.pc + [ca], cb) and valid(it.pc + [cb], ca)):
            raise Fail(f'{what}: {a!r} instead of {b!r}', model_of(it.pc))
        return
    if isinstance(b, (DictV,)) and isinstance(a, DictV):
        if set(a.d) != set(b.d):
            raise Fail(f'{what}: keys', model_of(it.pc))
        for r in a.d:
            cmp_val(it, a.d[r][1], b.d[r][1], f'{what}[{r}]')
        return
    if a is b or (type(a) is type(b) and a == b):
        return
    if type(a) is not type(b) or isinstance(a, (bool, str)):
        raise Fail(f'{what}: {a!r} instead of {b!r}', model_of(it.pc))
    raise Undecided(f'comparison of {type(a).__name__} and {type(b).__name__}')


UNFOLD = {}         # atom name -> fn(*idx) -> (condition, F): defining equation, for symbolic arguments


def pure_atom(f):
    if len(f.ts) == 1:
        t = f.ts[0]
        if len(t.pb) == 1 and not t.ib and not t.dom and t.coef == ONE and t.key == gen_key_from(t.pb[0]):
            return t.pb[0][0]
    return None


def chk_atom(it, f, name, idx, shape, what):
    """obligation f == atom(idx), through the defining equation of the atom when f is not the atom itself"""
    a = pure_atom(f)
    goal = fatom(name, tuple(idx), shape)
    if (a is not None and a.name == name) or name not in UNFOLD or const_all(idx):
        chk_equal(it, f, goal, what)
        return
    mp = eq_solutions(it.pc)
    if mp and const_all(val_subst(tuple(idx), mp)):
        chk_equal(it, f, goal, what)
        return
    cases = UNFOLD[name](*idx)
    for cond, rhs in (cases if isinstance(cases, list) else [cases]):
        if valid(it.pc, cond):
            chk_equal(it, f, rhs, what)
            return
    chk_equal(it, f, goal, what)


def const_all(v):
    if isinstance(v, tuple):
        return all(const_all(x) for x in v)
    return isinstance(v, E) and v.is_const()


def chk_inv(it, f, name, what='stored entry', args=()):
    """every key of f satisfies the invariant registered for the atom"""
    g = ATOM_INV.get(name)
    if not g:
        return
    for t in f.ts:
        pc = list(it.pc) + list(t.dom) + inv_conds(t.pb)
        for c in (g(t.key, args) if getattr(g, 'with_args', False) else g(t.key)):
            if not valid(pc, c):
                if not feasible(pc) or valid(pc + [c_not(c_eq(t.coef, ZERO))], c):
                    continue
                raise Fail(f'{what}: key {t.key!r} violates {c!r}', model_of(pc + [c_not(c)]))


def default_goal(unit, it, args, out):
    """the outcome of the body equals the outcome the contract prescribes"""
    base = list(it.pc)
    spec = unit.get_spec()

    def thunk():
        o = run_thunk(it, lambda: spec(it, *args))
        if o.kind == 'value' and isinstance(o.value, PolyV):
            o.f = o.value.f
        return o
    n = 0
    for guard, so in it.all_paths(thunk):
        pc0 = it.pc
        it.pc = base + guard
        try:
            if not feasible(it.pc):
                continue
            n += 1
            if so.kind != out.kind:
                what = f'raises {out.value}' if out.kind == 'raise' else 'returns a value'
                raise Fail(f'{what} where the contract ' + ('raises' if so.kind == 'raise' else 'returns a value'),
                           model_of(it.pc))
            if so.kind == 'value':
                ra, rb = raises_f(out.raises), raises_f(so.raises)
                if ra.ts or rb.ts:
                    chk_equal(it, ra, rb, 'exceptional iterations')
                cmp_val(it, out.value, so.value)
        finally:
            it.pc = pc0


def contains_nonlinear(v):
    return False


class Lemma(Unit):
    """a lemma over the contracts, proved once for all arguments (does not look at the code)"""
    def __init__(self, name, fn):
        self.fn = fn
        super().__init__('lemma ' + name, None)


def verify_lemma(unit):
    t0 = time.time()
    Stats.queries = 0
    Stats.time = 0.0
    reset_names()
    _s.NORM_T = False
    res = {'unit': unit.name, 'qual': unit.qual, 'obligations': 0, 'paths': 1, 'signature': True}
    it = Interp(CONTRACTS, unit, {})
    it.pc = []
    try:
        res['obligations'] = unit.fn(it)
        res['status'] = 'discharged'
    except (Fail, Undecided) as e:
        res['status'], res['reason'] = 'undecided', str(getattr(e, 'what', e))[:400]
    res['used'], res['queries'], res['solver_s'] = [], Stats.queries, round(Stats.time, 3)
    res['time'] = round(time.time() - t0, 2)
    return res


def verify(unit):
    if isinstance(unit, Lemma):
        return verify_lemma(unit)
    if hasattr(unit, 'verify'):
        return unit.verify({u.qual: u for u in UNITS.values() if hasattr(u, 'verify')})
    if unit.opts.get('ifmerge'):
        r = verify_(unit)
        if r['status'] == 'discharged' or r.get('signature'):
            return r
        unit.opts['ifmerge'] = False
        try:
            return verify_(unit)
        finally:
            unit.opts['ifmerge'] = True
    return verify_(unit)


def verify_(unit):
    """returns dict(status, obligations, reason, witness, ...)"""
    t0 = time.time()
    Stats.queries = 0
    Stats.time = 0.0
    reset_names()
    _s.NORM_T = bool(unit.opts.get('normT'))
    random.seed(7)
    res = {'unit': unit.name, 'qual': unit.qual, 'obligations': 0, 'paths': 0}
    it = None
    try:
        if frames(SRC).poly:
            raise Undecided(frames(SRC).poly)
        fv = find_func(unit.qual)
        if not same_signature(unit.qual, fv):
            res['signature'] = True
            raise Undecided('signature changed')
        it = Interp(CONTRACTS, unit, dict(unit.opts))
        it.under = {unit.qual}
        args, req = unit.setup(it)
        it.pc = list(req)
        if zcheck(mksolver(it.pc)) != z3.sat:
            raise Undecided('contract precondition is not satisfiable')
        snap = [(a, a.f, a.keyfor, a.memb, a.nozero) for a in walk(args) if isinstance(a, PolyV)]
        goal = unit.goal or default_goal
        dsnap = [(a, dict(a.d)) for a in walk(args) if isinstance(a, DictV)]

        def thunk():
            for a, f, kf, mb, nz in snap:
                a.f, a.keyfor, a.mutated, a.memb, a.nozero = f, kf, False, mb, nz
            o = run_thunk(it, lambda: it.call_under(fv, args))
            o.mut = [a.name for a, *_ in snap if a.mutated and not getattr(a, 'may_change', False)]
            for a, d in dsnap:
                if a.d != d:
                    o.mut.append('dictionary argument')
                    a.d = dict(d)
            if o.kind == 'value':
                o.alias = [a.name for a, *_ in snap if o.value is a and not getattr(a, 'may_alias', False)]
                o.post = [(a, a.f, a.keyfor, a.nozero) for a, *_ in snap]
            for a, f, kf, mb, nz in snap:
                a.f, a.keyfor, a.memb, a.nozero = f, kf, mb, nz
            return o
        paths = it.all_paths(thunk)
        res['paths'] = len(paths)
        for guard, o in paths:
            it.pc = list(req) + guard
            if not feasible(it.pc):
                continue
            res['obligations'] += 1
            if o.mut and o.kind == 'value':
                raise Fail(f'argument {o.mut[0]} is modified', model_of(it.pc))
            goal(unit, it, args, o)
        if not res['obligations']:
            raise Undecided('no obligation generated')
        res['status'] = 'discharged'
    except Fail as e:
        res['status'] = 'failed'
        res['reason'] = e.what[:600]
        res['model'] = str(e.model)[:600] if e.model is not None else None
        res['_model'] = e.model
        if e.model is not None:
            e.model.tags = dict(TAG_OF)         # (names are used again later)
        res['_pc'] = list(it.pc)
    except Undecided as e:
        res['status'] = 'undecided'
        res['reason'] = str(e)[:300]
    except RecursionError:
        res['status'] = 'undecided'
        res['reason'] = 'recursion'
    except (AssertionError, TypeError, KeyError, IndexError, AttributeError, ValueError, NotImplementedError, ZeroDivisionError) as e:
        res['status'] = 'undecided'
        res['reason'] = f'engine: {type(e).__name__}: {e} ' + traceback.format_exc()[-700:]
    except Exception as e:
        if type(e).__name__ in ('SymComp', 'Continue', 'Break', 'Returned', 'PyRaise', 'Z3Exception'):
            res['status'] = 'undecided'
            res['reason'] = f'engine: {type(e).__name__} {e}'
        else:
            raise
    if it is not None:
        res['assumed'] = sorted(it.assumed)
        res['inlined'] = sorted(it.inlined)
        res['used'] = sorted(it.used_contracts - {unit.qual})
        res['flat'] = sorted(it.flat)
    res['queries'], res['solver_s'] = Stats.queries, round(Stats.time, 3)
    res['time'] = round(time.time() - t0, 2)
    return res


def walk(args):
    for a in args:
        if isinstance(a, (tuple, list)):
            yield from walk(a)
        elif isinstance(a, DictV):
            yield from walk([v for _, v in a.d.values()])
        elif isinstance(a, ListV):
            yield from walk(a.items)
        else:
            yield a


# ------------------------------------------------------------------ concrete side
class Env:
    """concrete instances of the parameters of a unit"""
    def __init__(self, unit, rnd, model=None, exact=False):
        self.exact, self.offmodel = exact, False
        self.unit, self.rnd, self.model = unit, rnd, model
        self.ints = {}
        self.polys = {}
        self.hints = None

    def int_of(self, b):
        if b not in self.ints:
            v = None
            r = self.unit.ranges.get(b.key)
            if SCALE[0] > 1 and b.isint:
                r = r or (-3, 6)
                r = (min(r[0], r[0] * SCALE[0]), max(r[1], r[1] * SCALE[0]))
            if b.key in self.unit.gen and not b.isint:
                v = Fraction(self.unit.gen[b.key](self.rnd))
            elif self.model is not None and (self.exact or self.rnd.random() < 0.8):
                z = self.model.eval(zsym(b.key, b.isint))
                try:
                    v = z.as_long() if b.isint else Fraction(z.as_fraction())
                    if abs(v) > 12 * SCALE[0]:
                        v = None
                        self.offmodel = True
                    elif not self.exact and self.rnd.random() < 0.4:
                        v += self.rnd.choice((-1, 0, 1, 2))
                except Exception:
                    v = None
            if v is None:
                if b.isint:
                    v = self.rnd.randint(*(r or (-3, 6)))
                else:
                    v = Fraction(self.rnd.randint(-12, 12), self.rnd.choice((1, 2, 3, 5)))
            if r and b.isint:
                w = min(max(v, r[0]), r[1])
                self.offmodel = self.offmodel or w != v
                v = w
            self.ints[b] = v
        return self.ints[b]

    def poly(self, name, args, shape):
        k = (name, repr(args))
        if k not in self.polys:
            g = self.unit.gen.get(name)
            d = {}
            small = self.rnd.random() < 0.5
            n = 1 if small else self.rnd.choice((0, 1, 2, 3))
            for _ in range(n):
                key = self.from_model(name, shape, g(self.rnd)) if g else flatJ(gen_comp(s, self.rnd) for s in shape) if shape and shape[-1] in ('J', 'Q') else self.from_model(name, shape, tuple(gen_comp(s, self.rnd) for s in shape))
                d[key] = Fraction(self.rnd.choice((-3, -2, -1, 1, 2, 5)), self.rnd.choice((1, 1, 2, 3)))
                if SCALE[0] > 1 and not self.unit.compare and self.rnd.random() < 0.2:      # exact arithmetic knows no large or small
                    d[key] = self.rnd.choice((Fraction(1, 10 ** 50 + 1), Fraction(-7 ** 60, 3), Fraction(10 ** 40 + 3, 10 ** 40 + 1)))
            self.polys[k] = d
        return self.polys[k]


    def from_model(self, name, shape, key):
        """the key with the components that the verifier's counterexample gives for a term of this polynomial"""
        if self.model is None or len(key) != len(shape):
            return key
        if self.hints is None:
            self.hints, tags = {}, getattr(self.model, 'tags', {})
            for d in self.model.decls():
                tag, _, i = d.name().partition('.')
                if tag in tags and i.isdigit():
                    try:
                        v = self.model[d].as_long()
                    except Exception:
                        continue
                    if abs(v) <= 60:
                        self.hints.setdefault(tags[tag], {}).setdefault(tag, {})[int(i)] = v
        hs = list(self.hints.get(name, {}).values())
        if not hs or self.rnd.random() < 0.3:
            return key
        h = self.rnd.choice(hs)
        return tuple(h[i] if i in h and shape[i] == 'i' else x for i, x in enumerate(key))


def gen_comp(s, rnd):
    if s == 'i':
        w = SCALE[0] if SCALE[0] > 1 and rnd.random() < 0.5 else 1
        return rnd.randint(-2 * w, 4 * w)
    if s == 'q':
        return tuple(rnd.randint(-2, 3) for _ in range(rnd.choice((0, 1, 2))))
    if s == 'J':
        ns = sorted(rnd.sample(range(1, 5), rnd.choice((1, 2, 3))))
        return tuple((n, rnd.randint(1, 3)) for n in ns)
    if s == 'Q':
        ls = rnd.sample([(a, b, c) for a in range(3) for b in range(3) for c in range(3) if a + b + c], rnd.choice((1, 2, 3)))
        return tuple(x + (rnd.randint(1, 2),) for x in ls)
    if s == 'T':
        out = [(rnd.randint(0, 3), rnd.randint(0, 2), rnd.randint(1, 3)) for _ in range(rnd.choice((1, 2)))]
        return tuple(dict(((a, b), (a, b, c)) for a, b, c in out if (a, b) != (0, 0)).values()) or ((0, 0, 0),)
    return tuple(rnd.randint(-2, 3) for _ in range(s))


def flatJ(key):
    key = tuple(key)
    return key[:-1] + tuple(key[-1])


def name_of(x):
    return x if isinstance(x, str) else x.name if isinstance(x, StrV) else str(x)


def to_real(a, env):
    """python value of a symbolic argument"""
    if isinstance(a, PolyV):
        Poly = cc.real('ajdmom.poly.Poly')
        t = a.f.ts[0] if a.f.ts else None
        if t is None or len(a.f.ts) > 1 or len(t.pb) != 1 or t.ib or t.coef != ONE or t.key != gen_key_from(t.pb[0]) or env.unit.opts.get('real_atoms'):
            d = {cc.lower(k): cc.lower(c) for k, c in cc.eval_f(a.f, atom_values(env)).values()}
            p = Poly({k: c for k, c in d.items() if c != 0})
        else:
            at, _ = t.pb[0]
            p = Poly(dict(env.poly(at.name, at.args, at.shape)))
        p.set_keyfor(tuple(name_of(x) for x in a.keyfor))
        return p
    if isinstance(a, TableV):
        return RealTable(a, env)
    if isinstance(a, E):
        return cc.lower(a.subst({b: E.const(env.int_of(b)) for b in a.bases() if b.kind == 's'}))
    if isinstance(a, tuple):
        return tuple(to_real(x, env) for x in a)
    if isinstance(a, ListV):
        return [to_real(x, env) for x in a.items]
    if isinstance(a, SymListV):
        return [to_real(a.fn(None, E.const(j)), env) for j in range(int(cc.lower(a.length)))]
    if isinstance(a, DictV):
        return {to_real(k, env): to_real(v, env) for k, v in a.d.values()}
    if isinstance(a, StrV):
        return a.name
    if hasattr(a, 'to_real'):
        return a.to_real(env)
    return cc.lower(a)


class RealTable(dict):
    def __init__(self, tab, env):
        self.tab, self.env = tab, env

    def __contains__(self, k):
        kk = cc.lift_any(k)
        c = self.tab.region(kk)
        return c is True or c.op == 'true'

    def __getitem__(self, k):
        if k not in self:
            raise KeyError(k)
        kk = cc.lift_any(k)
        v = self.tab.value(None, kk)
        Poly = cc.real('ajdmom.poly.Poly')
        at, _ = v.f.ts[0].pb[0]
        p = Poly(dict(self.env.poly(at.name, at.args, at.shape)))
        p.set_keyfor(tuple(name_of(x) for x in v.keyfor))
        return p

    __missing__ = None


class Mism(Exception):
    pass


_ATOMCACHE = {}


def dict_mul(a, b):
    new = {}
    for k1, c1 in a.values():
        for k2, c2 in b.values():
            k = key_add(k1, k2)
            r = repr(k)
            new[r] = (k, (new[r][1] if r in new else ZERO) + c1 * c2)
    return new


def atom_values(env):
    def fn(name, args, shape):
        if getattr(env, 'stub', None) is not None and name in ATOM_REAL | ATOM_DEF and not (name in env.unit.gen or (name, repr(args)) in env.polys):
            return stub_atom(env, fn, name, args, shape)
        if (name, repr(args)) in env.polys or name in env.unit.gen or name not in ATOM_REAL and name not in ATOM_DEF and name not in ('pow', 'prod') and not args:
            return cc.lift_dict(env.poly(name, args, shape), shape)
        if name == 'pow':
            base, n = args
            if not isinstance(base, PAtom):
                raise cc.NotConcrete('power')
            d = fn(base.name, base.args, base.shape)
            k = tuple(ZERO for _ in shape)
            out = {repr(k): (k, ONE)}
            for _ in range(int(n.cval())):
                out = dict_mul(out, d)
            return out
        if name == 'prod':
            out = {}
            k = tuple(ZERO for _ in shape)
            out[repr(k)] = (k, ONE)
            for j in range(int(args[0].cval())):
                a = args[1].subst({IDX: E.const(j)})
                out = dict_mul(out, fn(a.name, a.args, a.shape))
            return out
        if name in ATOM_DEF and name not in ATOM_REAL:
            ck = (name, repr(args))
            if ck not in _ATOMCACHE:
                d = ATOM_DEF[name](*args)
                if d is None:
                    raise cc.NotConcrete(name)
                _ATOMCACHE[ck] = cc.eval_f(d, fn)
            return _ATOMCACHE[ck]
        if name in ATOM_REAL:
            pa = tuple(cc.lower(x) for x in args)
            ck = (name, pa)
            if ck not in _ATOMCACHE:
                _ATOMCACHE[ck] = cc.lift_dict(ATOM_REAL[name](*pa), shape)
            return _ATOMCACHE[ck]
        if name in env.unit.opts.get('atoms', {}):
            return cc.lift_dict(env.unit.opts['atoms'][name](*args), shape)
        if args:
            return cc.lift_dict(env.poly(name, args, shape), shape)
        raise cc.NotConcrete(name)
    return fn


def norm_real(v, shape, env):
    """python result -> comparable"""
    if type(v).__name__ == 'Poly':
        return ('poly', tuple(v.keyfor), cc.lift_dict(v, shape))
    return v


def concrete_once(unit, rnd, model=None, exact=False, info=None, stub=False):
    """one concrete comparison of the real function with its contract.
    returns None (inputs outside the precondition), 'ok', or a dict describing the difference"""
    it = Interp(CONTRACTS, unit, dict(unit.opts))
    it.under = set()
    it.rnd = rnd
    reset_names()
    args, req = (unit.csetup or unit.setup)(it)
    env = Env(unit, rnd, model, exact)
    if stub:
        env.stub = {}
    if info is not None:
        info.append(env)
    # assign integers
    bs = set()
    for a in walk(args):
        if isinstance(a, (E, SeqV)) :
            a.bases(bs)
        if isinstance(a, TableV) and hasattr(a, 'params'):
            for e in a.params:
                e.bases(bs)
    for c in req:
        c.bases(bs)
    mp = {}
    for b in sorted(bs, key=lambda b: b.key):
        if b.kind == 's':
            mp[b] = E.const(env.int_of(b))
    for c in req:
        d = c.subst(mp)
        if d.op == 'false':
            return None
        if d.op != 'true' and d.bases() and not any(x.op == 'atom' for x in [d] + list(d.a if d.op in ('not', 'and', 'or') else ())):
            return None
    cargs = [subst_arg(a, mp) for a in args]
    spec = unit.cspec or unit.get_spec()
    it.pc = []
    paths = it.all_paths(lambda: run_thunk(it, lambda: spec(it, *cargs)))
    if len(paths) != 1:
        raise cc.NotConcrete(f'{len(paths)} contract paths')
    so = paths[0][1]
    a = pure_atom(so.value.f) if isinstance(so.value, PolyV) else None
    env.own = a and a.name
    av = atom_values(env)
    exp_raise = so.kind == 'raise'
    if not exp_raise and so.raises:
        rf = F(Term(r[0], r[1], tuple(d for d in r[2] if not any(b.key.startswith('w!') for b in d.bases())), ONE, ()) for r in so.raises)
        exp_raise = any(eval_nonempty(F((t,)), av) for t in rf.ts)
    if not exp_raise:
        v = so.value
        if isinstance(v, PolyV):
            exp = ('poly', None if v.keyfor is None else tuple(name_of(x) for x in v.keyfor), cc.eval_f(v.f, av), shape_any(v, unit))
        elif isinstance(v, SymListV):
            exp = ('list', [v.fn(it, E.const(j)) for j in range(int(v.length.cval()))])
        elif isinstance(v, NumF):
            d = cc.eval_f(v.f, av)
            exp = ('num', sum((x[1] for x in d.values()), ZERO))
        elif isinstance(v, E):
            exp = ('num', v)
        else:
            exp = ('val', v)
    fn = unit.real_call or cc.real(unit.qual)

    results = []

    def once():
        rargs = [to_real(a, env) for a in cargs]
        before = repr(rargs) if not any(isinstance(a, RealTable) for a in rargs) else None
        inputs = [repr(dict(a)) if type(a).__name__ == 'Poly' else '<table of %r>' % (env.polys,) if isinstance(a, RealTable) else repr(a) for a in rargs]
        try:
            if stub:
                with stubbed(unit, env) as n:
                    got = fn(*rargs)
                if not n[0]:
                    raise cc.NotConcrete('no callee under contract')
            else:
                got = fn(*rargs)
            err = None
            results[:] = [got]
        except cc.NotConcrete:
            raise
        except (RecursionError, MemoryError) as e:
            if SCALE[0] > 1 or isinstance(e, MemoryError):
                raise cc.NotConcrete(type(e).__name__)
            got, err = None, RecursionError('the recursion does not end')
        except Exception as e:
            got, err = None, e
        if exp_raise:
            if err is None:
                return {'call': unit.qual, 'args': inputs, 'expected': 'an exception', 'got': repr(got)[:300]}
            return 'ok'
        if err is not None and unit.opts.get('may_refuse'):
            return None
        if err is not None:
            return {'call': unit.qual, 'args': inputs, 'expected': repr(exp)[:400], 'got': f'{type(err).__name__}: {err}', 'raised': True}
        if unit.compare:
            r = None
            if before is not None and repr(rargs) != before:
                r = f'arguments changed to {rargs!r}'
            r = r or unit.compare(got, exp, env)
            return 'ok' if r is None else {'call': unit.qual, 'args': inputs, 'difference': r}
        if exp[0] == 'poly':
            if type(got).__name__ != 'Poly':
                return {'call': unit.qual, 'args': inputs, 'expected': 'a polynomial', 'got': repr(got)[:300]}
            if exp[1] is not None and tuple(got.keyfor) != exp[1]:
                return {'call': unit.qual, 'args': inputs, 'expected keyfor': exp[1], 'got keyfor': got.keyfor}
            shape = exp[3]
            try:
                lifted = cc.lift_dict(got, shape)
            except (TypeError, ValueError) as e:
                return {'call': unit.qual, 'args': inputs, 'expected': 'a polynomial of the documented form', 'got': f'{e}: {dict(got)!r}'[:400]}
            d = cc.same_dict(*cc.rates_evaluated(lifted, exp[2], shape))
            if d is not None:
                return {'call': unit.qual, 'args': inputs, 'at key': d[0], 'got': repr(d[1]), 'expected': repr(d[2])}
        elif exp[0] == 'list':
            if not isinstance(got, list) or len(got) != len(exp[1]) or any(type(x).__name__ != 'Poly' for x in got):
                return {'call': unit.qual, 'args': inputs, 'expected': f'a list of {len(exp[1])} polynomials', 'got': repr(got)[:300]}
            for j, (x, y) in enumerate(zip(got, exp[1])):
                shape = shape_any(y, unit)
                if tuple(x.keyfor) != tuple(name_of(n) for n in y.keyfor):
                    return {'call': unit.qual, 'args': inputs, 'element': j, 'expected keyfor': y.keyfor, 'got keyfor': x.keyfor}
                d = cc.same_dict(*cc.rates_evaluated(cc.lift_dict(x, shape), cc.eval_f(y.f, av), shape))
                if d is not None:
                    return {'call': unit.qual, 'args': inputs, 'element': j, 'at key': d[0], 'got': repr(d[1]), 'expected': repr(d[2])}
        elif exp[0] == 'num':
            if not num_same(got, exp[1]):
                return {'call': unit.qual, 'args': inputs, 'expected': repr(exp[1])[:300], 'got': repr(got)[:300]}
        else:
            if repr(norm_py(got)) != repr(norm_py(cc.lower(exp[1]) if not isinstance(exp[1], (bool, str)) else exp[1])):
                return {'call': unit.qual, 'args': inputs, 'expected': repr(exp[1])[:300], 'got': repr(got)[:300]}
        if before is not None and repr(rargs) != before and not any(getattr(a, 'may_change', False) for a in walk(args)):
            return {'call': unit.qual, 'args': inputs, 'expected': 'arguments unchanged', 'got': repr(rargs)[:300]}
        return 'ok'
    t0 = time.time()
    r = once()
    if stub:
        return r
    if r == 'ok' and not exp_raise and unit.qual.startswith('ajdmom.poly.'):
        z = zero_terms(unit, fn, cargs, env)
        if z:
            return z
    if r == 'ok' and time.time() - t0 < 0.3:
        spoil(results.pop() if results else None)
        r = once()              # a result must not depend on the calls made before, nor on what became of their results
        if isinstance(r, dict):
            r['when'] = 'second call with the same arguments, after the caller changed the first result'
    return r


# ---- modular stand-in: the real body, with its callees under contract replaced by their contracts over arbitrary polynomials
def stub_atom(env, fn, name, args, shape):
    ck = (name, repr(args))
    if ck not in env.stub:
        env.stub[ck] = None                 # a definition must not need itself
        small = all(a.is_const() and a.cval() <= 1 for a in args if isinstance(a, E))
        d = DEFS[name](args) if name in DEFS and small else None
        if d is None and name in ATOM_DEF and (small or name == env.own or stub_deep[0] and name not in ATOM_REAL):
            d = ATOM_DEF[name](*args)
        if d is not None:
            env.stub[ck] = cc.eval_f(d, fn)
        else:
            inv = ATOM_INV.get(name)
            out = {}
            for _ in range(200):
                k = tuple(gen_comp(s, env.rnd) for s in shape)
                if env.rnd.random() < 0.5:
                    k = tuple(abs(x) if isinstance(x, int) else x for x in k)
                lk = cc.lift_key(k, shape)
                if inv is not None:
                    cs = inv(lk, args) if getattr(inv, 'with_args', False) else inv(lk)
                    if any(not (c is True or getattr(c, 'op', '') == 'true') for c in cs):
                        continue
                out[repr(lk)] = (lk, E.const(Fraction(env.rnd.choice((-2, -1, 1, 2, 3)), env.rnd.choice((1, 2)))))
                if len(out) == 2:
                    break
            if not out:
                raise cc.NotConcrete(f'no key for {name}')
            env.stub[ck] = out
    if env.stub[ck] is None:
        raise cc.NotConcrete(f'circular {name}')
    return env.stub[ck]


class stubbed:
    def __init__(self, unit, env):
        self.unit, self.env = unit, env

    def __enter__(self):
        import inspect
        fn = cc.real(self.unit.qual)
        g = inspect.unwrap(fn).__globals__
        self.g, self.old, n = g, {}, [0]
        Poly = cc.real('ajdmom.poly.Poly')
        for nm, f in list(g.items()):
            if not inspect.isfunction(f):
                continue
            q = f.__module__ + '.' + f.__name__
            if q not in CONTRACTS or q == self.unit.qual or q.startswith('ajdmom.poly.') or not f.__module__.startswith('ajdmom'):
                continue
            self.old[nm] = f
            g[nm] = self.stub(q, f, Poly, n)
        return n

    def __exit__(self, *a):
        self.g.update(self.old)

    def stub(self, q, f, Poly, n):
        import inspect
        sig = inspect.signature(f)

        def lift(a):
            if isinstance(a, Poly):
                return PolyV(F(tuple(Term((), (), (), toE(Fraction(v)), tuple(cc.lift_any(x) for x in k)) for k, v in a.items())), tuple(a.keyfor), 0)
            if isinstance(a, bool):
                return a
            return cc.lift_any(a)

        def run(*args, **kw):
            b = sig.bind(*args, **kw)
            b.apply_defaults()
            try:
                ev = [lift(x) for x in b.arguments.values()]
            except (cc.NotConcrete, ValueError, TypeError):
                return f(*args, **kw)
            it = Interp(CONTRACTS, self.unit, {})
            it.under, it.rnd, it.pc = set(), self.env.rnd, []
            paths = it.all_paths(lambda: run_thunk(it, lambda: CONTRACTS[q](it, *ev)))
            if len(paths) != 1:
                raise cc.NotConcrete('contract paths')
            o = paths[0][1]
            if o.kind == 'raise':
                raise ValueError(o.value)
            av = atom_values(self.env)
            if o.raises:
                raise cc.NotConcrete('contract with refusals')
            if not isinstance(o.value, PolyV):
                return f(*args, **kw)
            n[0] += 1
            p = Poly({cc.lower(k): cc.lower(c) for k, c in cc.eval_f(o.value.f, av).values()})
            p.set_keyfor(tuple(name_of(x) for x in o.value.keyfor))
            return p
        return run


stub_deep = [False]


def modular_search(unit, seed=1, seconds=20):
    for deep in (False, True):
        stub_deep[0] = deep
        r = modular_search_(unit, seed, seconds / 2)
        if 'unreliable' not in r and 'skip' not in r:
            break
    return r


def modular_search_(unit, seed, seconds):
    """a failed or undecided obligation: the real body with stubs for its callees, first in the unit's ranges, where it must agree
    (otherwise the stubs lack a fact and nothing follows), then for larger orders"""
    if hasattr(unit, 'verify') or isinstance(unit, Lemma) or unit.real_call or unit.compare:
        return {}
    rnd, t0, seen = random.Random(seed), time.time(), set()

    def h(*a):
        raise _TO()
    old = signal.signal(signal.SIGALRM, h)
    why = None
    try:
        for scale in (1, 2, 4, 8):
            SCALE[0] = scale
            ran = 0
            for _ in range(40 if scale == 1 else 25):
                left = seconds - (time.time() - t0)
                if left < 1:
                    break
                signal.alarm(int(max(1, min(left, 6))))
                try:
                    r = concrete_once(unit, rnd, info=[], stub=True)
                except (cc.NotConcrete, Undecided) as e:
                    why, r = str(e), None
                except _TO:
                    why, r = 'time', None
                except (AssertionError, TypeError, KeyError, IndexError, AttributeError, ValueError, ZeroDivisionError, PyRaise, RecursionError) as e:
                    why, r = f'{type(e).__name__}: {e}', None
                finally:
                    signal.alarm(0)
                if r is None:
                    continue
                if isinstance(r, dict):
                    if scale == 1:
                        return {'unreliable': r}
                    if not r.get('raised'):
                        return {'agreed': len(seen), 'modular': r}
                    continue
                ran += 1
                seen.add(ran + 1000 * scale)
            if scale == 1 and ran < 3:
                return {'skip': why}
        return {'agreed': len(seen)}
    finally:
        SCALE[0] = 1
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def zero_terms(unit, fn, cargs, env):
    """operands keep their contents: also the terms with coefficient zero that they hold"""
    rargs = [to_real(a, env) for a in cargs]
    for a, p in zip(cargs, rargs):
        if type(p).__name__ == 'Poly':
            at = a.f.ts[0].pb[0][0]
            k = tuple(gen_comp(s, env.rnd) for s in at.shape)
            if k not in p:
                p[k] = Fraction(0)
    keep = [(dict(p), tuple(p.keyfor)) if type(p).__name__ == 'Poly' else None for p in rargs]
    inputs = [repr(dict(p)) if type(p).__name__ == 'Poly' else repr(p) for p in rargs]
    try:
        fn(*rargs)
    except Exception:
        return None
    for a, p, b in zip(cargs, rargs, keep):
        if b is not None and not getattr(a, 'may_change', False) and (dict(p), tuple(p.keyfor)) != b:
            return {'call': unit.qual, 'args': inputs, 'expected': f'operand keeps its contents {b[0]!r}', 'got': repr(dict(p))}
    return None


def spoil(v):
    """change a result in place, as a caller may"""
    if type(v).__name__ == 'Poly':
        for k in list(v):
            if isinstance(v[k], (int, float, Fraction)):
                v[k] += 1
    elif isinstance(v, (list, dict)):
        for x in v.values() if isinstance(v, dict) else v:
            spoil(x)
        v.clear()


def norm_py(v):
    if isinstance(v, (list, tuple)):
        return [norm_py(x) for x in v]
    if isinstance(v, Fraction) and v.denominator == 1:
        return int(v)
    return v


def num_same(got, e):
    if isinstance(got, bool) or not isinstance(got, (int, Fraction)):
        return False
    return is_zero(toE(Fraction(got)) - e)


def eval_nonempty(f, av):
    return bool(cc.eval_f(f, lambda *a: {r: (k, ONE) for r, (k, c) in av(*a).items()}))


def shape_any(v, unit):
    if unit.keyshape is not None:
        return unit.keyshape
    s = shape_of(v)
    return s


def subst_arg(a, mp):
    if isinstance(a, (E, SeqV)):
        return a.subst(mp)
    if isinstance(a, tuple):
        return tuple(subst_arg(x, mp) for x in a)
    if isinstance(a, ListV):
        return ListV([subst_arg(x, mp) for x in a.items])
    if isinstance(a, DictV):
        r = DictV()
        r.d = {n: (k, subst_arg(v, mp)) for n, (k, v) in a.d.items()}
        return r
    if isinstance(a, TableV) and hasattr(a, 'remake'):
        return a.remake(mp)
    if isinstance(a, PolyV) and mp and (len(a.f.ts) != 1 or len(a.f.ts[0].pb) != 1 or a.f.ts[0].key != gen_key_from(a.f.ts[0].pb[0])):
        r = PolyV.__new__(PolyV)
        r.__dict__.update(a.__dict__)
        r.f = a.f.subst(mp)
        return r
    if isinstance(a, SymListV):
        r = SymListV(a.length.subst(mp), a.fn, a.depth)
        r.__dict__.update({k: v for k, v in a.__dict__.items() if k != 'length'})
        return r
    return a


class _TO(BaseException):
    pass


SCALE = [1]      # widening of the argument ranges


def nesting(rnd, usual):
    """depth of the nested sums of a generated key"""
    return rnd.randint(3, 3 + min(SCALE[0], 4)) if SCALE[0] > 1 and rnd.random() < 0.4 else rnd.choice(usual)


def retire(*quals):
    """take the units of fixed size of these functions out of the plan; they keep serving as concrete search"""
    old = {q: [UNITS.pop(n) for n in [n for n, u in UNITS.items() if u.qual == q]] for q in quals}

    def run(qual, seed, tries, seconds=30):
        ran, ok, why, rep = 0, 0, None, False
        for u in old[qual]:
            r = concrete_search(u, seed=seed, seconds=max(2, seconds / len(old[qual])))
            ran += r.get('ran', 0)
            ok += r.get('ok', 0)
            why = why or r.get('skip')
            if r.get('witness'):
                return {**r, 'ran': ran, 'ok': ok}
        return {'ran': ran, 'ok': ok, 'skip': why, 'replayed': rep}

    def attach(u):
        u.search_, u.search = True, run
        return u
    return attach


def concrete_search(unit, model=None, tries=None, seed=1, seconds=20):
    """look for an input on which the real function differs from its contract: the unit's ranges first, then wider ones"""
    t0 = time.time()
    if hasattr(unit, 'search_'):
        return unit.search(unit.qual, seed, 5 * (tries or unit.tries), seconds)
    if hasattr(unit, 'verify'):
        from bounded import sims
        return sims.search(unit.qual.rsplit('.', 1)[1], seed, 5 * (tries or unit.tries), seconds)
    try:
        SCALE[0] = 1
        c = search(unit, model, tries, seed, min(seconds, 15) if seconds <= 30 else seconds / 2)
        while not c.get('witness') and c['ok'] and SCALE[0] < 16 and time.time() - t0 < seconds:
            SCALE[0] *= 2
            d = search(unit, None, tries, seed, min(seconds / 3, seconds - (time.time() - t0)))
            c = {**c, 'ran': c['ran'] + d['ran'], 'ok': c['ok'] + d['ok'], **({'witness': d['witness']} if d.get('witness') else {})}
            if d.get('skip') == 'time' and not d['ran']:
                break
        return c
    finally:
        SCALE[0] = 1


def search(unit, model, tries, seed, seconds):
    rnd = random.Random(seed)
    t0 = time.time()
    ran = ok = 0
    why = None
    replayed = False

    def h(*a):
        raise _TO()
    old = signal.signal(signal.SIGALRM, h)
    try:
        for i in range(tries or unit.tries):
            if time.time() - t0 > seconds:
                break
            # up to several draws to meet the precondition
            for _ in range(200):
                try:
                    signal.alarm(max(2, int(seconds)))
                    info = []
                    r = concrete_once(unit, rnd, model if i % 2 == 0 else None, exact=(i == 0 and model is not None), info=info)
                    signal.alarm(0)
                    if i == 0 and model is not None and r == 'ok' and not info[0].offmodel:
                        replayed = True
                except (cc.NotConcrete, Undecided) as e:
                    signal.alarm(0)
                    why = str(e)
                    r = 'skip'
                except _TO:
                    return {'ran': ran, 'ok': ok, 'skip': 'time'}
                if r is not None or time.time() - t0 > seconds:
                    break
            if r in (None, 'skip'):
                continue
            ran += 1
            if r == 'ok':
                ok += 1
            else:
                return {'ran': ran, 'ok': ok, 'witness': r}
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    return {'ran': ran, 'ok': ok, 'skip': why, 'replayed': replayed}
