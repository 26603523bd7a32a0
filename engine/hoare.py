"""Floyd-Hoare verification of the simulators (C20): symbolic execution of the real source over the reals (z3), loops by
inferred invariants (the largest inductive subset of a template pool is kept), calls through contracts with ghost state.

Numbers are z3 reals (integers are reals known to be integral: comparisons between them are rounded).  A number may carry
tangents: its partial derivatives along named parameters, which is how "every price jump enters once" is stated.
The jump path of the variance is one fixed symbolic path: jt(0) < jt(1) < ... < jt(nJ-1), all positive, sizes J(i) >= 0,
c(t) = number of jump times <= t, SJ(i) = sum of the first i sizes, SEJ(i) = sum of the first i of exp(k jt) J.
"""
import ast, os, time
import z3
from .frame import frames
from .unit import Unit, Stats

R, B = z3.RealSort(), z3.BoolSort()
fn1 = lambda n: z3.Function(n, R, R)
JT, JS, CNT, SJ, SEJ, EXP, SQRT, LOG = map(fn1, ('jt', 'J', 'c', 'SJ', 'SEJ', 'exp', 'sqrt', 'log'))
DIV = z3.Function('div', R, R, R)
NJ = z3.Real('nJ')
K = z3.Real('k')
SRC = os.environ.get('AJDMOM_SRC', '/repo/src')
RL = 20_000_000
RLC = 3_000_000


class Unsupported(Exception):
    pass


class Failed(Exception):
    def __init__(self, what, model=None):
        self.what, self.model = what, model


def rv(x):
    return z3.RealVal(str(x) if not isinstance(x, float) else repr(x))


class V:
    """a number: z3 term, integral?, tangents, definedness condition (None: defined)"""
    __slots__ = ('z', 'i', 'd', 'ok')

    def __init__(self, z, i=False, d=None, ok=None):
        if isinstance(z, (int, float)):
            i = i or isinstance(z, int)
            z = rv(z)
        self.z, self.i, self.ok = z, i, ok
        self.d = {k: x for k, x in (d or {}).items() if not (z3.is_rational_value(x) and x.as_fraction() == 0)}


class Bv:
    def __init__(self, z):
        self.z = z


class Seq:
    def __init__(self, n, at, tag=None):
        self.n, self.at, self.tag = n, at, tag      # n: V ; at: z3 -> value


class Par:
    def __init__(self, d):
        self.d = d


class ArrRef:
    def __init__(self, k):
        self.k = k


class Vec:
    """a completed array: length, kinds its cells are known to have"""
    def __init__(self, n, kinds):
        self.n, self.kinds = n, kinds


class Mod:
    def __init__(self, name):
        self.name = name


class Fun:
    def __init__(self, qual, node, mod):
        self.qual, self.node, self.mod = qual, node, mod


def untainted(mod, name, v):
    """what the name is bound to in the source is what it stands for at run time"""
    if v is None:
        return
    why = frames(SRC).why(mod, name) or (f'{name} is decorated' if isinstance(v, Fun) and v.node.decorator_list else None)
    if why:
        raise Unsupported(f'{mod}.{name}: {why}')


class A:
    """array state: length (V), mode empty/zeros/list, filled prefix, the cell being written, kinds of the finished cells"""
    __slots__ = ('n', 'mode', 'fill', 'idx', 'cell', 'kinds')

    def __init__(self, n, mode, fill, idx=None, cell=None, kinds=frozenset(('zero', 'full'))):
        self.n, self.mode, self.fill, self.idx, self.cell, self.kinds = n, mode, fill, idx, cell, kinds

    def copy(self):
        return A(self.n, self.mode, self.fill, self.idx, self.cell, self.kinds)


class St:
    def __init__(self, env, pc, g, arrs):
        self.env, self.pc, self.g, self.arrs = env, pc, g, arrs

    def copy(self, *extra):
        return St(dict(self.env), self.pc + list(extra), dict(self.g), {k: a.copy() for k, a in self.arrs.items()})


def conj(*cs):
    return z3.And(*[c for c in cs])


# ------------------------------------------------------------------ prover
_apps = {}


def apps(e):
    """applications of the special functions in e"""
    k = e.get_id()
    r = _apps.get(k)
    if r is not None:
        return r[1]
    out, seen, todo = [], set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args():
                out.append(x)
            todo += x.children()
    _apps[k] = (e, out)
    return out


def axioms(fs):
    ax, done, jumps = [], set(), False
    idx = {}

    def addidx(t):
        t = z3.simplify(t)
        idx.setdefault(t.get_id(), t)
    work = list(fs)
    for _ in range(3):
        new = []
        for f in work:
            for a in apps(f):
                if a.get_id() in done:
                    continue
                done.add(a.get_id())
                n, x = a.decl().name(), a.arg(0)
                if n == 'exp':
                    new += [a > 0, z3.Implies(x < 0, a < 1), z3.Implies(x > 0, a > 1), z3.Implies(x == 0, a == 1)]
                elif n == 'sqrt':
                    new += [a >= 0, z3.Implies(x > 0, a > 0)]
                elif n == 'div':
                    y = a.arg(1)
                    new += [z3.Implies(y != 0, a * y == x), z3.Implies(conj(x > 0, y > 0), a > 0), z3.Implies(conj(x >= 0, y > 0), a >= 0)]
                elif n in ('jt', 'J', 'SJ', 'SEJ', 'c'):
                    jumps = True
                    if n == 'SEJ':
                        addidx(x)
        ax += new
        work = new
    if not jumps or not JUMPS[0]:
        return ax
    for i in idx.values():
        ax.append(z3.Implies(conj(i >= 0, i + 1 <= NJ), SEJ(z3.simplify(i + 1)) == SEJ(i) + EXP(K * JT(i)) * JS(i)))
    return ax


def _quant():
    """the jump path; instantiated by triggers only (indexes are integral terms)"""
    i, j, x, y = z3.Reals('qi qj qx qy')
    inr = lambda i: conj(i >= 0, i + 1 <= NJ)
    Q = lambda vs, body, *pats: z3.ForAll(vs, body, patterns=[z3.MultiPattern(*p) if len(p) > 1 else p[0] for p in pats])
    intg = lambda a, b: z3.Or(a <= b, b + 1 <= a)
    return [NJ >= 0, SJ(rv(0)) == 0, SEJ(rv(0)) == 0,
            Q([i], z3.Implies(inr(i), conj(JT(i) > 0, JS(i) >= 0)), (JT(i),), (JS(i),)),
            Q([i], z3.Or(i + 1 <= NJ, i >= NJ), (JT(i),), (SJ(i),)),
            Q([i], z3.Implies(inr(i), SJ(i + 1) == SJ(i) + JS(i)), (JS(i),)),
            Q([i, j], conj(z3.Implies(conj(i >= 0, i + 1 <= j, j + 1 <= NJ), JT(i) < JT(j)), intg(i, j)), (JT(i), JT(j))),
            Q([i, j], z3.Implies(conj(i >= 0, i <= j, j <= NJ), SJ(i) <= SJ(j)), (SJ(i), SJ(j))),
            Q([i, x], conj(z3.Implies(inr(i), conj(z3.Implies(JT(i) <= x, i + 1 <= CNT(x)), z3.Implies(JT(i) > x, CNT(x) <= i))),
                           intg(i, CNT(x)), intg(CNT(x), i)), (JT(i), CNT(x))),
            Q([x], conj(CNT(x) >= 0, CNT(x) <= NJ, z3.Or(JT(CNT(x)) >= 0, True), z3.Implies(CNT(x) + 1 <= NJ, JT(CNT(x)) > x),
                        z3.Implies(CNT(x) >= 1, JT(CNT(x) - 1) <= x)), (CNT(x),)),
            Q([x, y], conj(z3.Implies(x <= y, CNT(x) <= CNT(y)), intg(CNT(x), CNT(y))), (CNT(x), CNT(y)))]


def mk(full, lin, rl):
    s = z3.SolverFor('AUFLIRA') if False else z3.Solver()
    s.set('auto_config', False)
    s.set('mbqi', False)
    s.set('rlimit', rl)
    s.add(*[linear(f) for f in full] if lin else full)
    if JUMPS[0]:
        global QU
        if QU is None:
            QU = _quant()
        s.add(*QU)
    return s


QU = None
TRACE = os.environ.get('HOARE_TRACE')
JUMPS = [True]
_cache = {}
_abs = {}


def linear(e):
    """products of unknowns replaced by unknowns of their own (weaker: proves no less soundly, decides quickly)"""
    r = _abs.get(e.get_id())
    if r is not None:
        return r[1]
    _abs[e.get_id()] = (e, _linear(z3.simplify(e, som=True), {}))
    return _abs[e.get_id()][1]


_mono = {}


def _linear(e, memo):
    k = e.get_id()
    if k in memo:
        return memo[k]
    ch = [_linear(c, memo) for c in e.children()]
    kind = e.decl().kind() if z3.is_app(e) else None
    if kind in (z3.Z3_OP_MUL, z3.Z3_OP_POWER, z3.Z3_OP_DIV) and sum(not z3.is_rational_value(c) for c in ch) > 1 or kind == z3.Z3_OP_POWER:
        num = [c for c in ch if z3.is_rational_value(c)] if kind == z3.Z3_OP_MUL else []
        fac = [c for c in ch if not z3.is_rational_value(c)] if kind == z3.Z3_OP_MUL else ch
        key = (kind,) + tuple(sorted(c.get_id() for c in fac) if kind == z3.Z3_OP_MUL else [c.get_id() for c in fac])
        if key not in _mono:
            _mono[key] = (z3.Real(f'mono!{len(_mono)}'), fac)
        r = _mono[key][0]
        for c in num:
            r = c * r
    elif ch:
        r = e.decl()(*ch) if kind not in (z3.Z3_OP_ADD, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_MUL) else \
            {z3.Z3_OP_ADD: lambda: z3.Sum(*ch), z3.Z3_OP_AND: lambda: z3.And(*ch), z3.Z3_OP_OR: lambda: z3.Or(*ch), z3.Z3_OP_MUL: lambda: z3.Product(*ch)}[kind]()
    else:
        r = e
    memo[k] = r
    return r


INV = fn1('inv')
_keep = []


def undiv(e, memo):
    """divisions as products with the inverse, constants taken out"""
    k = e.get_id()
    if k not in memo:
        ch = [undiv(c, memo) for c in e.children()]
        if z3.is_app(e) and e.decl().name() == 'div' and e.num_args() == 2:
            b = z3.simplify(e.arg(1), som=True)
            c = rv(1)
            if b.decl().kind() == z3.Z3_OP_MUL and z3.is_rational_value(b.arg(0)):
                c = rv(1 / b.arg(0).as_fraction())
                b = z3.simplify(z3.Product(*[b.arg(i) for i in range(1, b.num_args())]))
            memo[k] = ch[0] * c * INV(b)
        elif z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED or not ch:
            memo[k] = e
        else:
            memo[k] = e.decl()(*ch) if e.decl().kind() not in (z3.Z3_OP_ADD, z3.Z3_OP_MUL) else \
                (z3.Sum(*ch) if e.decl().kind() == z3.Z3_OP_ADD else z3.Product(*ch))
    return memo[k]


def ring(a, b):
    """a == b as rational expressions (denominators were shown nonzero where they are divided by)"""
    d = z3.simplify(undiv(a - b, {}), som=True)
    tot = {}
    for t in (d.children() if d.decl().kind() == z3.Z3_OP_ADD else [d]):
        fs = t.children() if t.decl().kind() == z3.Z3_OP_MUL else [t]
        c, pw = 1, {}
        while fs:
            f = fs.pop()
            if z3.is_rational_value(f):
                c *= f.as_fraction()
                continue
            n = 1
            if f.decl().kind() == z3.Z3_OP_POWER and z3.is_rational_value(f.arg(1)):
                f, n = f.arg(0), int(f.arg(1).as_fraction())
            if f.decl().kind() == z3.Z3_OP_MUL:
                fs += f.children() * n
                continue
            if z3.is_app(f) and f.decl().name() == 'inv':
                f, n = f.arg(0), -n
            pw[f.get_id()] = pw.get(f.get_id(), 0) + n
            _keep.append(f)         # ids stay unique
        key = tuple(sorted((k, n) for k, n in pw.items() if n))
        tot[key] = tot.get(key, 0) + c
    return not any(tot.values())


def survivors(pc, items):
    """those of the named candidates that follow from pc (models refute many at a time)"""
    items = {k: z3.simplify(g) for k, g in items.items()}
    ok = {k for k, g in items.items() if z3.is_true(g)}
    left = {k: g for k, g in items.items() if k not in ok and not z3.is_false(g)}
    if not left:
        return ok
    t0 = time.time()
    fs = list(pc) + list(left.values())
    base = [linear(f) for f in list(pc) + axioms(fs)]
    neg = {k: z3.Not(linear(g)) for k, g in left.items()}

    def ask(keys):
        s = mk(base + [z3.Or(*[neg[k] for k in keys])], False, RLC)
        Stats.queries += 1
        return s.check() == z3.unsat

    def split(keys):
        """those of keys that follow"""
        if not keys or ask(keys):
            return set(keys)
        if len(keys) == 1:
            return set()
        h = len(keys) // 2
        return split(keys[:h]) | split(keys[h:])

    def suspects(keys):
        """refuted by a (possibly imprecise) model of an incremental solver"""
        s, out = mk(base, False, RLC), []
        while keys:
            s.push()
            s.add(z3.Or(*[neg[k] for k in keys]))
            Stats.queries += 1
            bad = []
            if s.check() != z3.unsat:
                try:
                    m = s.model()
                    bad = [k for k in keys if z3.is_true(m.eval(neg[k], model_completion=True))]
                except z3.Z3Exception:
                    pass
            s.pop()
            if not bad:
                break
            out += bad
            keys = [k for k in keys if k not in bad]
        return keys, out
    keys = sorted(left)
    if ask(keys):
        r = ok | set(keys)
    else:
        good, bad = suspects(keys)
        r = ok | split(good) | {k for k in bad if ask([k])}
    Stats.time += time.time() - t0
    return r


def valid(pc, goal, model=None, rl=0, lin=False):
    eq = (goal.arg(0), goal.arg(1)) if z3.is_eq(goal) and goal.arg(0).sort() == R and not lin else None
    goal = z3.simplify(goal)
    if z3.is_true(goal):
        return True
    key = (tuple(p.get_id() for p in pc), goal.get_id(), lin, JUMPS[0])
    if key in _cache:
        return _cache[key][0]
    t0 = time.time()
    if eq is not None and ring(*eq):
        return True
    fs = list(pc) + [z3.Not(goal)]
    full = fs + axioms(fs)
    for fin in ((False,) if lin else (False, True)):
        s = mk(full, not fin, (rl or RL) if fin else RLC)
        r = s.check()
        Stats.queries += 1
        if r == z3.unsat:
            break
    Stats.time += time.time() - t0
    if r == z3.sat and model is not None:
        model.append(s.model())
    _cache[key] = (r == z3.unsat, fs)       # keeps the terms alive: ids stay unique
    return r == z3.unsat


def feasible(pc):
    """may say yes wrongly (only costs a path whose obligations are trivial)"""
    old, JUMPS[0] = JUMPS[0], False
    try:
        return not valid(pc, z3.BoolVal(False), lin=True)
    finally:
        JUMPS[0] = old


# ------------------------------------------------------------------ executor
GHOSTS = {'clock': 0, 'last': None, 'a': 0, 'IE': 0, 'I': 0, 'I2': 0, 'sims': 0, 'arr': 0, 'npd': 0, 'nd': 0}
INTG = ('a', 'sims', 'arr', 'npd', 'nd')
SAMPLE = ('clock', 'last', 'a', 'IE', 'I', 'I2', 'sims', 'arr', 'npd', 'nd')


class Vf:
    def __init__(self, contracts, unit):
        self.C, self.unit, self.n = contracts, unit, 0
        self.record, self.count, self.used, self.inlined = True, 0, set(), set()
        self.mods, self.depth = {}, 0
        self.warm, self.path, self.calls, self.usewarm = {}, (), {}, True
        self.start = {}             # ghost values at the start of a sample
        self.slopes = {}            # direction -> expected slope of a sample (fn of state)
        self.cellspec = None
        self.rate = None

    # ---- basics
    def fresh(self, n='x'):
        self.n += 1
        return z3.Real(f'{n}!{self.n}')

    def oblige(self, s, goal, what):
        if not self.record:
            s.pc.append(goal)
            return
        m = []
        if not valid(s.pc, goal, m):
            raise Failed(what, str(m[0])[:400] if m else None)
        self.count += 1
        s.pc.append(goal)

    def module(self, mod):
        if mod not in self.mods:
            p = os.path.join(SRC, *mod.split('.')) + '.py'
            if not os.path.exists(p):
                raise Unsupported('no module ' + mod)
            tree = ast.parse(open(p).read())
            g = {}
            for n in tree.body:
                if isinstance(n, ast.FunctionDef):
                    g[n.name] = Fun(f'{mod}.{n.name}', n, mod)
                elif isinstance(n, ast.Import):
                    for a in n.names:
                        g[a.asname or a.name.split('.')[0]] = Mod(a.name if a.asname else a.name.split('.')[0])
                elif isinstance(n, ast.ImportFrom):
                    base = n.module or ''
                    if n.level:
                        base = '.'.join(mod.split('.')[:-n.level] + ([n.module] if n.module else []))
                    for a in n.names:
                        g[a.asname or a.name] = ('from', base, a.name)
                elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                    g[n.targets[0].id] = ('expr', n.value)
            self.mods[mod] = g
        return self.mods[mod]

    def glob(self, mod, name):
        g = self.module(mod)
        v = g.get(name)
        untainted(mod, name, v)
        if isinstance(v, tuple) and v[0] == 'from':
            if v[1] in ('math', 'numpy', 'numpy.random'):
                return Mod(v[1] + '.' + v[2])
            if v[1].startswith('ajdmom'):
                sub = self.module(v[1]) if os.path.exists(os.path.join(SRC, *v[1].split('.')) + '.py') else None
                if sub is not None:
                    return self.glob(v[1], v[2])
            raise Unsupported('import of ' + '.'.join(v[1:]))
        if isinstance(v, tuple) and v[0] == 'expr':
            t = ast.unparse(v[1])
            if t in ('np.random.default_rng()', 'numpy.random.default_rng()', 'np.random'):
                return Mod('numpy.random')
            if isinstance(v[1], ast.Constant) and isinstance(v[1].value, (int, float)) and not isinstance(v[1].value, bool):
                return V(v[1].value)
            raise Unsupported('module variable ' + name)
        if v is None:
            if name in ('range', 'len', 'tuple', 'list', 'sum', 'max', 'min', 'abs', 'float', 'int', 'isinstance', 'zip', 'enumerate', 'pow'):
                return Mod('builtins.' + name)
            raise Unsupported('name ' + name)
        return v

    # ---- arithmetic
    def add(self, x, y, sg=1):
        d = dict(x.d)
        for k, v in y.d.items():
            w = v if sg > 0 else -v
            d[k] = z3.simplify(d[k] + w) if k in d else w
        return V(z3.simplify(x.z + y.z if sg > 0 else x.z - y.z), x.i and y.i, d)

    def mul(self, x, y):
        d = {k: v * y.z for k, v in x.d.items()}
        for k, v in y.d.items():
            d[k] = z3.simplify(d[k] + v * x.z) if k in d else v * x.z
        return V(z3.simplify(x.z * y.z), x.i and y.i, {k: z3.simplify(v) for k, v in d.items()})

    def div(self, s, x, y):
        self.notan(s, y)
        if z3.is_rational_value(y.z):
            q = y.z.as_fraction()
            if q == 0:
                self.oblige(s, z3.BoolVal(False), 'division by zero')
            iv = rv(1 / q)
            return V(z3.simplify(x.z * iv), False, {k: z3.simplify(v * iv) for k, v in x.d.items()})
        self.oblige(s, y.z != 0, 'division by zero')
        inv = lambda t: DIV(z3.simplify(t), y.z)
        return V(inv(x.z), False, {k: inv(v) for k, v in x.d.items()})

    def notan(self, s, x):
        """the value does not depend on the tangent directions"""
        if not all(valid(s.pc, d == 0) for d in x.d.values()):
            raise Unsupported('a price jump enters otherwise than by addition')

    def num(self, v):
        if isinstance(v, V):
            return v
        if isinstance(v, bool):
            return V(int(v))
        if isinstance(v, Bv):
            return V(z3.If(v.z, rv(1), rv(0)), True)
        raise Unsupported(f'not a number: {type(v).__name__}')

    def cmp(self, op, x, y):
        if x.i and y.i:
            r = {ast.Lt: lambda: x.z + 1 <= y.z, ast.Gt: lambda: y.z + 1 <= x.z}.get(op)
            if r:
                return z3.simplify(r())
        return z3.simplify({ast.Lt: lambda: x.z < y.z, ast.LtE: lambda: x.z <= y.z, ast.Gt: lambda: x.z > y.z, ast.GtE: lambda: x.z >= y.z,
                            ast.Eq: lambda: x.z == y.z, ast.NotEq: lambda: x.z != y.z}[op]())

    def no(self, c, ints=False):
        return z3.simplify(z3.Not(c))

    # ---- conditions: list of (state, bool) with the condition assumed
    def cond(self, s, e):
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            out, cur = [], [s]
            for x in e.values:
                nxt = []
                for st in cur:
                    for st2, b in self.cond(st, x):
                        (nxt.append(st2) if b == isand else out.append((st2, b)))
                cur = nxt
            return out + [(st, isand) for st in cur]
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(st, not b) for st, b in self.cond(s, e.operand)]
        if isinstance(e, ast.Compare) and len(e.ops) > 1:
            l, parts = e.left, []
            for op, r in zip(e.ops, e.comparators):
                parts.append(ast.Compare(l, [op], [r]))
                l = r
            return self.cond(s, ast.BoolOp(ast.And(), parts))
        out = []
        if isinstance(e, ast.Compare):
            op = type(e.ops[0])
            neg = {ast.Lt: ast.GtE, ast.LtE: ast.Gt, ast.Gt: ast.LtE, ast.GtE: ast.Lt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}
            for st, (x, y) in self.evs(s, [e.left, e.comparators[0]]):
                if op not in neg:
                    raise Unsupported('comparison ' + ast.unparse(e))
                x, y = self.num(x), self.num(y)
                if op in (ast.Eq, ast.NotEq) and x.i and y.i:       # integral: the negation is a strict order
                    for b, cs in ((True, [x.z == y.z]), (False, [x.z + 1 <= y.z]), (False, [y.z + 1 <= x.z])):
                        out.append((st.copy(*map(z3.simplify, cs)), b == (op is ast.Eq)))
                else:
                    out.append((st.copy(self.cmp(op, x, y)), True))
                    out.append((st.copy(self.cmp(neg[op], x, y)), False))
        else:
            for st, v in self.ev(s, e):
                if isinstance(v, Bv):
                    out += [(st.copy(v.z), True), (st.copy(z3.Not(v.z)), False)]
                elif isinstance(v, V):
                    out += [(st.copy(v.z != 0), True), (st.copy(v.z == 0), False)]
                elif isinstance(v, (Seq, tuple)):
                    n = v.n.z if isinstance(v, Seq) else rv(len(v))
                    out += [(st.copy(n >= 1), True), (st.copy(n <= 0), False)]
                elif v is None or isinstance(v, bool):
                    out.append((st, bool(v)))
                else:
                    raise Unsupported('truth of ' + type(v).__name__)
        return [(st, b) for st, b in out if feasible(st.pc)]

    # ---- expressions: list of (state, value)
    def evs(self, s, es):
        out = [(s, ())]
        for e in es:
            out = [(s2, vs + (v,)) for s1, vs in out for s2, v in self.ev(s1, e)]
        return out

    def ev(self, s, e):
        t = type(e)
        if t is ast.Constant:
            if isinstance(e.value, bool) or e.value is None or isinstance(e.value, str):
                return [(s, e.value)]
            return [(s, V(e.value))]
        if t is ast.Name:
            if e.id in s.env:
                v = s.env[e.id]
                if isinstance(v, V) and v.ok is not None:
                    if not valid(s.pc, v.ok):
                        raise Unsupported(f'{e.id} may be undefined')
                    v = V(v.z, v.i, v.d)
                if v is UNDEF:
                    raise Unsupported(f'{e.id} may be undefined')
                return [(s, v)]
            return [(s, self.glob(s.env['__mod__'], e.id))]
        if t in (ast.Tuple, ast.List):
            if t is ast.List and not e.elts:
                return self.newarr(s, V(0), 'list')
            return [(st, vs) for st, vs in self.evs(s, e.elts)]
        if t is ast.UnaryOp:
            if isinstance(e.op, ast.Not):
                return [(st, b) for st, b in self.cond(s, e)]
            out = []
            for st, v in self.ev(s, e.operand):
                v = self.num(v)
                out.append((st, v if isinstance(e.op, ast.UAdd) else self.add(V(0), v, -1)))
            return out
        if t is ast.BinOp:
            return [(st, self.binop(st, e.op, x, y)) for st, (x, y) in self.evs(s, [e.left, e.right])]
        if t in (ast.Compare, ast.BoolOp):
            return self.cond(s, e)
        if t is ast.IfExp:
            out = []
            for st, b in self.cond(s, e.test):
                out += self.ev(st, e.body if b else e.orelse)
            return out
        if t is ast.Attribute:
            out = []
            for st, v in self.ev(s, e.value):
                if not isinstance(v, Mod):
                    raise Unsupported('attribute ' + ast.unparse(e))
                nm = v.name + '.' + e.attr
                out.append((st, V(3.141592653589793) if nm == 'math.pi' else Mod(nm)))
            return out
        if t is ast.Subscript:
            out = []
            if isinstance(e.slice, ast.Slice):
                raise Unsupported('slice')
            for st, (o, i) in self.evs(s, [e.value, e.slice]):
                out.append((st, self.index(st, o, i)))
            return out
        if t is ast.Call:
            return self.call(s, e)
        if t in (ast.GeneratorExp, ast.ListComp):
            return self.comp(s, e)
        raise Unsupported('expression ' + ast.unparse(e)[:60])

    def binop(self, s, op, x, y):
        if isinstance(op, ast.Add) and (isinstance(x, (Seq, tuple)) or isinstance(y, (Seq, tuple))):
            return self.concat(x, y)
        if isinstance(x, (Vec, ArrRef)) or isinstance(y, (Vec, ArrRef)):
            return self.vecop(s, op, x, y)
        x, y = self.num(x), self.num(y)
        if isinstance(op, ast.Add):
            return self.add(x, y)
        if isinstance(op, ast.Sub):
            return self.add(x, y, -1)
        if isinstance(op, ast.Mult):
            return self.mul(x, y)
        if isinstance(op, ast.Div):
            return self.div(s, x, y)
        if isinstance(op, ast.Pow) and z3.is_rational_value(y.z):
            q = y.z.as_fraction()
            if q == int(q) and 0 <= q <= 4:
                r = V(1)
                for _ in range(int(q)):
                    r = self.mul(r, x)
                return r
            if q * 2 == 1:
                return self.sqrt(s, x)
        raise Unsupported('operator ' + type(op).__name__)

    def concat(self, x, y):
        def norm(v):
            if isinstance(v, tuple):
                def at(i, v=v):
                    r = v[-1]
                    for j in range(len(v) - 2, -1, -1):
                        r = V(z3.If(i == j, v[j].z, r.z))
                    return r
                return Seq(V(len(v)), at)
            if isinstance(v, Seq):
                return v
            raise Unsupported('concatenation')
        if isinstance(x, tuple) and isinstance(y, tuple):
            return x + y
        a, b = norm(x), norm(y)
        if isinstance(x, tuple) and not x:
            return b
        if isinstance(y, tuple) and not y:
            return a
        return Seq(self.add(a.n, b.n), lambda i: V(z3.simplify(z3.If(i + 1 <= a.n.z, a.at(i).z, b.at(z3.simplify(i - a.n.z)).z))))

    def complete(self, s, x):
        """an array used as a whole"""
        if isinstance(x, Vec):
            return x
        a = s.arrs[x.k]
        if a.mode == 'list':
            return Vec(a.fill, a.kinds)
        if a.mode == 'empty':
            self.oblige(s, a.fill.z == a.n.z, 'every sample is stored')
            return Vec(a.n, a.kinds)
        if valid(s.pc, a.fill.z == a.n.z):
            return Vec(a.n, a.kinds)
        return Vec(a.n, a.kinds & {'zero'})

    def vecop(self, s, op, x, y):
        if not isinstance(op, (ast.Add, ast.Sub)):
            raise Unsupported('array operator')
        if isinstance(x, V) or isinstance(y, V):
            n, o = (x, y) if isinstance(x, V) else (y, x)
            self.notan(s, n)
            if isinstance(op, ast.Sub) and o is y:
                raise Unsupported('array plus number')
            return self.complete(s, o)
        a, b = self.complete(s, x), self.complete(s, y)
        self.oblige(s, a.n.z == b.n.z, 'arrays of the same length')
        ks = set()
        for p in a.kinds:
            for q in b.kinds:
                if 'zero' in (p, q):
                    o = q if p == 'zero' else p
                    if o == 'zero' or isinstance(op, ast.Add) or q == 'zero':
                        ks.add(o)
        return Vec(a.n, frozenset(ks))

    def sqrt(self, s, x):
        self.oblige(s, x.z >= 0, 'argument of a square root is not negative')
        self.notan(s, x)
        return V(SQRT(z3.simplify(x.z)))

    def index(self, s, o, i):
        if isinstance(o, Par):
            if not isinstance(i, str) or i not in o.d:
                raise Unsupported(f'parameter {i}')
            return o.d[i]
        i = self.num(i)
        if not i.i:
            raise Unsupported('index not integral')
        if isinstance(o, tuple):
            if not z3.is_rational_value(i.z):
                raise Unsupported('index into a tuple')
            return o[int(i.z.as_fraction())]
        if isinstance(o, Seq):
            if z3.is_rational_value(i.z) and i.z.as_fraction() < 0:
                i = self.add(o.n, i)
            self.oblige(s, conj(i.z >= 0, i.z + 1 <= o.n.z), 'index within the sequence')
            return o.at(z3.simplify(i.z))
        if isinstance(o, ArrRef):
            a = s.arrs[o.k]
            if a.idx is not None and valid(s.pc, i.z == a.idx):
                return a.cell
            if a.mode == 'zeros' and valid(s.pc, i.z >= a.fill.z):
                self.oblige(s, i.z + 1 <= a.n.z, 'index within the array')
                return V(0)
        raise Unsupported('subscript')

    def newarr(self, s, n, mode):
        k = f'arr{len(s.arrs)}'
        s2 = s.copy()
        s2.arrs[k] = A(n, mode, V(0))
        return [(s2, ArrRef(k))]

    def store(self, s, k, i, v):
        a = s.arrs[k]
        if a.idx is not None and valid(s.pc, i.z == a.idx):
            a.cell = v
            return
        self.oblige(s, conj(i.z >= 0, i.z + 1 <= a.n.z), 'index within the array')
        if not valid(s.pc, i.z == a.fill.z):
            if self.record and a.mode == 'empty':
                raise Failed(f'samples are stored one after the other', None)
            raise Unsupported('store out of order')
        a.idx, a.cell, a.fill = i.z, v, self.add(a.fill, V(1))

    def comp(self, s, e):
        if len(e.generators) != 1 or e.generators[0].ifs or not isinstance(e.generators[0].target, ast.Name):
            raise Unsupported('comprehension')
        g = e.generators[0]
        out = []
        for st, q in self.ev(s, g.iter):
            if not isinstance(q, Seq):
                raise Unsupported('comprehension source')
            i = self.fresh('ci')
            st2 = st.copy(i >= 0, i + 1 <= q.n.z)
            st2.env[g.target.id] = q.at(i)
            r = self.ev(st2, e.elt)
            if len(r) != 1 or not isinstance(r[0][1], V) or r[0][0].g != st2.g:
                raise Unsupported('comprehension element')
            v = r[0][1]
            out.append((st, Seq(q.n, lambda j, v=v, i=i: V(z3.simplify(z3.substitute(v.z, (i, j))), v.i))))
        return out

    # ---- calls
    def draw(self, s, loc, sc, size=None):
        self.oblige(s, sc.z >= 0, 'scale of a normal draw is not negative')
        loc = V(loc.z, False, {k: d for k, d in loc.d.items() if not valid(s.pc, d == 0)})
        self.notan(s, sc)
        z = self.fresh('N')
        if size is None:
            if loc.d:
                s.g['nd'] = self.add(s.g['nd'], V(1))
            return V(z, False, loc.d)
        self.oblige(s, size.z >= 0, 'number of draws is not negative')
        if loc.d:
            s.g['nd'] = self.add(s.g['nd'], size)
        f = z3.Function(f'Nv!{self.n}', R, R)
        q = Seq(size, lambda i: V(f(i), False, loc.d))
        q.tag = ('sum', V(z, False, self.mul(size, loc).d))
        return q

    def call(self, s, e):
        if isinstance(e.func, ast.Attribute) and e.func.attr == 'append' and isinstance(e.func.value, ast.Name) and isinstance(s.env.get(e.func.value.id), ArrRef):
            out = []
            for st, (v,) in self.evs(s, e.args):
                st = st.copy()
                a = st.arrs[s.env[e.func.value.id].k]
                if a.mode != 'list':
                    raise Unsupported('append')
                a.idx, a.cell, a.fill = a.fill.z, self.num(v), self.add(a.fill, V(1))
                out.append((st, None))
            return out
        out = []
        kws = [k.arg for k in e.keywords]
        if None in kws or any(isinstance(a, ast.Starred) for a in e.args):
            raise Unsupported('starred call')
        for s1, f in self.ev(s, e.func):
            for st, vs in self.evs(s1, list(e.args) + [k.value for k in e.keywords]):
                pos, kw = list(vs[:len(e.args)]), dict(zip(kws, vs[len(e.args):]))
                out += self.apply(st, f, pos, kw)
        return out

    def apply(self, s, f, pos, kw):
        if isinstance(f, Fun):
            args = bind(f.node, pos, kw)
            c = self.C.get(f.qual)
            if c is not None and f.qual != self.unit.qual:
                self.used.add(f.qual)
                if any(a is None for a in args.values()):
                    raise Unsupported('defaults')
                s = s.copy()
                return [(s, c.at_call(self, s, list(args.values())))]
            if c is not None:
                raise Unsupported('recursion')
            if self.depth > 4:
                raise Unsupported('depth')
            self.inlined.add(f.qual)
            return self.inline(s, f, args)
        if not isinstance(f, Mod):
            raise Unsupported('call of ' + type(f).__name__)
        n = f.name.replace('numpy', 'np', 1) if f.name.startswith('numpy') else f.name
        N = self.num
        if kw and not set(kw) <= {'loc', 'scale', 'size', 'lam'}:
            raise Unsupported('keywords of ' + n)
        s = s.copy()
        if n in ('math.sqrt', 'np.sqrt'):
            return [(s, self.sqrt(s, N(pos[0])))]
        if n in ('math.exp', 'np.exp'):
            x = N(pos[0])
            self.notan(s, x)
            return [(s, V(EXP(z3.simplify(x.z, som=True))))]
        if n in ('builtins.abs', 'math.fabs', 'np.abs'):
            x = N(pos[0])
            self.notan(s, x)
            return [(s, V(z3.If(x.z >= 0, x.z, -x.z), x.i))]
        if n in ('builtins.max', 'builtins.min', 'np.maximum', 'np.minimum') and len(pos) == 2:
            x, y = N(pos[0]), N(pos[1])
            self.notan(s, x)
            self.notan(s, y)
            a, b = (x, y) if 'max' in n else (y, x)
            return [(s, V(z3.simplify(z3.If(a.z >= b.z, x.z, y.z)), x.i and y.i))]
        if n in ('builtins.float',):
            return [(s, N(pos[0]))]
        if n == 'builtins.pow' and len(pos) == 2:
            return [(s, self.binop(s, ast.Pow(), pos[0], pos[1]))]
        if n == 'builtins.int' and isinstance(pos[0], V) and pos[0].i:
            return [(s, pos[0])]
        if n == 'builtins.len':
            o = pos[0]
            if isinstance(o, tuple):
                return [(s, V(len(o)))]
            if isinstance(o, Seq):
                return [(s, o.n)]
            if isinstance(o, (ArrRef, Vec)):
                return [(s, s.arrs[o.k].n if isinstance(o, ArrRef) and s.arrs[o.k].mode != 'list' else self.complete(s, o).n)]
        if n in ('builtins.tuple', 'builtins.list') and len(pos) == 1 and isinstance(pos[0], (tuple, Seq)):
            return [(s, pos[0])]
        if n in ('np.array', 'np.asarray') and len(pos) == 1 and isinstance(pos[0], (ArrRef, Vec)):
            return [(s, self.complete(s, pos[0]) if isinstance(pos[0], Vec) or s.arrs[pos[0].k].mode == 'list' else pos[0])]
        if n in ('np.empty', 'np.zeros') and len(pos) == 1:
            m = N(pos[0])
            self.oblige(s, m.z >= 0, 'array length is not negative')
            return self.newarr(s, m, n[3:])
        if n == 'builtins.range' and 1 <= len(pos) <= 2:
            a, b = (V(0), N(pos[0])) if len(pos) == 1 else (N(pos[0]), N(pos[1]))
            if not (a.i and b.i):
                raise Unsupported('range of non-integers')
            m = self.add(b, a, -1)
            ln = m if valid(s.pc, m.z >= 0) else V(z3.If(m.z >= 0, m.z, rv(0)), True)
            return [(s, Seq(ln, lambda i: V(z3.simplify(a.z + i), True), 'range'))]
        if n == 'builtins.zip' and pos and all(isinstance(p, Seq) for p in pos):
            for p in pos[1:]:
                if not valid(s.pc, p.n.z == pos[0].n.z):
                    raise Unsupported('zip of different lengths')
            return [(s, Seq(pos[0].n, lambda i: tuple(p.at(i) for p in pos)))]
        if n == 'builtins.enumerate' and len(pos) == 1 and isinstance(pos[0], Seq):
            return [(s, Seq(pos[0].n, lambda i: (V(i, True), pos[0].at(i))))]
        if n in ('builtins.sum', 'np.sum') and len(pos) == 1 and isinstance(pos[0], Seq):
            q = pos[0]
            if isinstance(q.tag, tuple) and q.tag[0] == 'sum':
                return [(s, q.tag[1])]
            if q.tag == 'JS':
                return [(s, V(SJ(NJ)))]
        if n == 'builtins.isinstance':
            return [(s, Bv(z3.Bool(f'isinst!{len(s.pc)}')))]
        if n in ('np.random.normal', 'np.random.standard_normal'):
            if n.endswith('standard_normal'):
                loc, sc, size = V(0), V(1), (pos[0] if pos else kw.get('size'))
            else:
                loc = pos[0] if pos else kw.get('loc', V(0))
                sc = pos[1] if len(pos) > 1 else kw.get('scale', V(1))
                size = pos[2] if len(pos) > 2 else kw.get('size')
            return [(s, self.draw(s, N(loc), N(sc), None if size is None else N(size)))]
        if n == 'np.random.poisson' and len(pos) + len(kw) == 1:
            lam = N(pos[0] if pos else kw['lam'])
            if self.rate is None:
                raise Unsupported('poisson draw')
            self.oblige(s, lam.z == self.rate, 'arrivals are drawn with the intensity times the length of the window')
            z = self.fresh('P')
            s.pc.append(z >= 0)
            v = V(z, True)
            s.g['arr'], s.g['npd'] = self.add(s.g['arr'], v), self.add(s.g['npd'], V(1))
            return [(s, v)]
        if n == 'np.random.noncentral_chisquare' and len(pos) == 2:
            d, nc = N(pos[0]), N(pos[1])
            self.oblige(s, d.z > 0, 'degrees of freedom are positive')
            self.oblige(s, nc.z >= 0, 'noncentrality is not negative')
            z = self.fresh('X')
            s.pc.append(z >= 0)
            return [(s, V(z))]
        raise Unsupported('call of ' + n)

    def inline(self, s, f, args):
        node = f.node
        env = {'__mod__': f.mod}
        dflt = node.args.defaults
        names = [a.arg for a in node.args.args]
        for i, nm in enumerate(names):
            v = args.get(nm)
            if v is None:
                d = dflt[i - (len(names) - len(dflt))]
                v = self.ev(s, d)[0][1]
            env[nm] = v
        st = s.copy()
        outer, st.env = st.env, env
        self.depth += 1
        try:
            out = []
            for s2, ctl in self.block(st, node.body):
                s2 = s2.copy()
                s2.env = dict(outer)
                out.append((s2, ctl[1] if isinstance(ctl, tuple) else None))
            return out
        finally:
            self.depth -= 1

    # ---- statements: list of (state, control)
    def block(self, s, body):
        cur, out = [s], []
        for st in body:
            nxt = []
            for x in cur:
                for y, ctl in self.stmt(x, st):
                    (nxt.append(y) if ctl is None else out.append((y, ctl)))
            cur = nxt
            if not cur:
                break
        return out + [(x, None) for x in cur]

    def stmt(self, s, n):
        t = type(n)
        if t is ast.Expr:
            if isinstance(n.value, ast.Constant):
                return [(s, None)]
            return [(st, None) for st, _ in self.ev(s, n.value)]
        if t is ast.Pass:
            return [(s, None)]
        if t is ast.Assign:
            out = []
            for st, v in self.ev(s, n.value):
                st = st.copy()
                sts = [st]
                for tg in n.targets:
                    sts = [b for a in sts for b in self.assign(a, tg, v)]
                out += [(a, None) for a in sts]
            return out
        if t is ast.AnnAssign and n.value is not None:
            return [(b, None) for st, v in self.ev(s, n.value) for b in self.assign(st.copy(), n.target, v)]
        if t is ast.AugAssign:
            ld = ast.parse(ast.unparse(n.target), mode='eval').body
            e = ast.BinOp(ld, n.op, n.value)
            return [(b, None) for st, v in self.ev(s, e) for b in self.assign(st.copy(), n.target, v)]
        if t is ast.If:
            out = []
            for st, b in self.cond(s, n.test):
                out += self.block(st, n.body if b else n.orelse)
            return out
        if t is ast.Return:
            if n.value is None:
                return [(s, ('return', None))]
            return [(st, ('return', v)) for st, v in self.ev(s, n.value)]
        if t is ast.Break:
            return [(s, 'break')]
        if t is ast.Continue:
            return [(s, 'continue')]
        if t is ast.For and not n.orelse:
            out = []
            for st, q in self.ev(s, n.iter):
                if isinstance(q, tuple):
                    q = self.concat(q, Seq(V(0), lambda i: V(0))) if q else Seq(V(0), lambda i: V(0))
                if not isinstance(q, Seq):
                    raise Unsupported('iteration over ' + type(q).__name__)
                out += self.loop(st, n, q)
            return out
        if t is ast.While and not n.orelse:
            return self.loop(s, n, None)
        if t is ast.Assert:
            return [(st, None) for st, b in self.cond(s, n.test) if b]
        raise Unsupported('statement ' + t.__name__)

    def assign(self, s, tg, v):
        if isinstance(tg, ast.Name):
            s.env[tg.id] = v
            return [s]
        if isinstance(tg, (ast.Tuple, ast.List)):
            if not isinstance(v, tuple) or len(v) != len(tg.elts):
                raise Unsupported('unpacking')
            sts = [s]
            for t, x in zip(tg.elts, v):
                sts = [b for a in sts for b in self.assign(a, t, x)]
            return sts
        if isinstance(tg, ast.Subscript):
            out = []
            for st, (o, i) in self.evs(s, [tg.value, tg.slice]):
                if not isinstance(o, ArrRef):
                    raise Unsupported('store into ' + type(o).__name__)
                st = st.copy()
                self.store(st, o.k, self.num(i), self.num(v))
                out.append(st)
            return out
        raise Unsupported('assignment target')

    # ---- loops
    def loop(self, s, n, q):
        mod = {x.id for b in n.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        if q is not None:
            mod |= {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
        s = s.copy()
        for b in n.body:                      # cells of zero arrays that the body accumulates into
            for x in ast.walk(b):
                if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) \
                        and isinstance(s.env.get(x.value.id), ArrRef) and s.arrs[s.env[x.value.id].k].mode == 'zeros' \
                        and not ({y.id for y in ast.walk(x.slice) if isinstance(y, ast.Name)} & mod):
                    i = self.num(self.ev(s, x.slice)[0][1])
                    a = s.arrs[s.env[x.value.id].k]
                    if not (a.idx is not None and valid(s.pc, i.z == a.idx)) and valid(s.pc, conj(i.z == a.fill.z, i.z + 1 <= a.n.z)):
                        self.store(s, s.env[x.value.id].k, i, V(0))
        ints = {x for x in mod if isinstance(s.env.get(x), V) and s.env[x].i} | {x for x in mod if x not in s.env}
        oldrec, gmod = self.record, set()
        self.calls[n.lineno] = self.calls.get(n.lineno, 0) + 1
        key = (self.path, n.lineno, self.calls[n.lineno])       # the same execution in an earlier pass over the enclosing loop
        warm = self.warm.get(key) if self.usewarm else None
        if warm:
            ints, gmod = set(warm[1]), set(warm[2])
        self.record = False
        try:
            while True:
                try:
                    cands = None
                    while True:
                        head, cnt, cs = self.head(s, n, q, mod, ints, gmod, cands)
                        if cands is None:
                            cands = survivors(s.pc, {k: f(s, V(0)) for k, f in cs.items()})
                            if warm:
                                cands &= warm[0]
                            kinds = {k: set(a.kinds) for k, a in s.arrs.items()}
                            head, cnt, cs = self.head(s, n, q, mod, ints, gmod, cands)
                        for k in sorted(cands):
                            head.pc.append(cs[k](head, cnt))
                        for k, a in head.arrs.items():
                            a.kinds = frozenset(kinds[k])
                        drop, kdrop = set(), False
                        nxt = self.add(cnt, V(1))
                        for e, ctl in self.body(head, n, q, cnt):
                            if ctl not in (None, 'continue'):
                                continue
                            e = self.finish(head, e, kinds)
                            for x in list(ints):
                                v = e.env.get(x)
                                if isinstance(v, V) and not v.i:
                                    raise Resort(x)
                            for g in set(e.g) - gmod:
                                if not e.g[g].z.eq(s.g[g].z):
                                    gmod.add(g)
                                    raise Resort(None)
                            rest = {k: cs[k](e, nxt) for k in sorted(cands - drop)}
                            drop |= set(rest) - survivors(e.pc, rest)
                            if TRACE and TRACE in drop and TRACE in rest:
                                print('dropped', TRACE, 'at', n.lineno, sorted(cands), valid(e.pc, rest[TRACE], rl=50_000_000, lin=True), valid(e.pc, rest[TRACE]))
                                for f in e.pc: print('     ', str(f).replace(chr(10), ' ')[:200])
                                print('  =>', z3.simplify(rest[TRACE]))
                            for k, a in e.arrs.items():
                                if k in kinds and not kinds[k] <= a.kinds:
                                    kinds[k] &= set(a.kinds)
                                    kdrop = True
                        if not drop and not kdrop:
                            break
                        cands -= drop
                    break
                except Resort as r:
                    ints.discard(r.args[0])
                    inner, warm = self.path + (n.lineno,), None
                    self.warm = {k: v for k, v in self.warm.items() if k[0][:len(inner)] != inner}
        finally:
            self.record = oldrec
        self.warm[key] = (set(cands), set(ints), set(gmod))
        if TRACE and oldrec:
            print('loop', n.lineno, sorted(cands), 'mod', sorted(mod), 'ghosts', sorted(gmod))
        head, cnt, cs = self.head(s, n, q, mod, ints, gmod, cands)
        for k in sorted(cands):
            head.pc.append(cs[k](head, cnt))
        for k, a in head.arrs.items():
            a.kinds = frozenset(kinds[k])
        out, variants = [], None
        for e, ctl in self.body(head, n, q, cnt):
            if ctl in (None, 'continue'):
                if self.record:
                    self.finish(head, e, kinds)
                    self.count += len(cands)          # the inductive step of every invariant kept
                    if q is None:
                        variants = self.variants(s, head, e, mod, ints, variants)
                        self.count += 1
                continue
            out.append((e, None if ctl == 'break' else ctl))
        if q is not None:
            x = head.copy(cnt.z == q.n.z)
            if feasible(x.pc):
                out.append((x, None))
        else:
            out += [(x, None) for x, b in self.cond(head, n.test) if not b]
        for x, _ in out:
            for v in mod:
                if isinstance(x.env.get(v), V) and x.env[v].ok is not None and valid(x.pc, x.env[v].ok):
                    y = x.env[v]
                    x.env[v] = V(y.z, y.i, y.d)
        return out

    def variants(self, s, head, e, mod, ints, left):
        """(variable, bound) of a while loop whose distance is positive whenever the body is entered and decreases in every iteration"""
        if left is None:
            bounds = [('length', a.n.z) for a in s.arrs.values()] + [(x, v.z) for x, v in s.env.items() if x not in mod and isinstance(v, V) and v.i]
            bounds += [('jumps', NJ)] if self.unit.jumps else []
            left = [(x, b) for x in sorted(ints) if isinstance(head.env.get(x), V) and head.env[x].i for b in [None] + [b for _, b in bounds]]
        ok = []
        for x, b in left:
            v, w = head.env[x], e.env.get(x)
            if not (isinstance(w, V) and w.i):
                continue
            if valid(e.pc, conj(w.z <= v.z - 1, v.z >= 1) if b is None else conj(w.z >= v.z + 1, v.z + 1 <= b)):
                ok.append((x, b))
        if not ok:
            raise Unsupported('termination of a while loop')
        return ok

    def body(self, head, n, q, cnt):
        h = head.copy()
        if q is not None:
            h.pc.append(cnt.z + 1 <= q.n.z)
            if not feasible(h.pc):
                return []
            hs = self.assign(h, n.target, q.at(cnt.z))
        else:
            hs = [x for x, b in self.cond(h, n.test) if b]
        old = self.path, self.calls
        self.path, self.calls = self.path + (n.lineno,), {}
        try:
            return [r for h in hs for r in self.block(h, n.body)]
        finally:
            self.path, self.calls = old

    def head(self, s, n, q, mod, ints, gmod, cands=None):
        """arbitrary state at the loop head, and the candidate invariants over it"""
        h = s.copy()
        cnt = V(self.fresh('n'), True)
        h.pc.append(cnt.z >= 0)
        if q is not None:
            h.pc.append(cnt.z <= q.n.z)
        dirs = sorted(self.slopes)
        und = set()
        for x in mod:
            v = s.env.get(x)
            if isinstance(v, V) or x not in s.env:
                ok = None
                if x not in s.env:
                    ok, v = (cnt.z >= 1 if q is not None else z3.BoolVal(False)), V(0)
                elif v.ok is not None:
                    ok = z3.Or(v.ok, cnt.z >= 1) if q is not None else v.ok
                if ok is not None:
                    und.add(x)
                h.env[x] = V(self.fresh(x), x in ints, {d: self.fresh('d' + x) for d in dirs if f'{x} d{d}==0' not in (cands or ())}, ok)
            elif isinstance(v, (Seq, Par, ArrRef, Vec, tuple)):
                h.env[x] = UNDEF
        for g in gmod:
            h.g[g] = V(self.fresh('g' + g), g in INTG)
        for k, a in h.arrs.items():
            a.fill = V(self.fresh('fill'), True)
            if a.idx is not None:
                a.idx, a.cell = self.fresh('idx'), V(self.fresh('cell'), False, {d: self.fresh('dc') for d in dirs if f'@#{k} d{d}==0' not in (cands or ())})
        # ---- candidates
        cs = {}
        st = self.unit.pool(self)
        def val(nm):
            return lambda x: x.env[nm] if nm[0] != '@' else (x.g[nm[1:]] if nm[1] != '#' else (x.arrs[nm[2:]].cell))
        names = sorted(x for x in mod if isinstance(h.env.get(x), V)) + ['@' + g for g in sorted(gmod)] + \
            ['@#' + k for k, a in sorted(h.arrs.items()) if a.idx is not None]
        ivars = [x for x in sorted(s.env) if isinstance(h.env.get(x), V) and h.env[x].i and h.env[x].ok is None]
        rvars = [x for x in sorted(s.env) if self.unit.jumps and x not in mod and isinstance(s.env[x], V) and not s.env[x].i and not z3.is_rational_value(s.env[x].z)
                 and str(s.env[x].z) not in ('k', 'theta', 'sigma', 'rho', 'mu', 'v0')]
        for nm in names:
            g = val(nm)
            def guard(f, nm=nm):
                if nm in und:
                    def gf(x, c):
                        v = x.env.get(nm)
                        if not isinstance(v, V):
                            return z3.BoolVal(True)
                        return f(x, c) if v.ok is None else z3.Implies(v.ok, f(x, c))
                    return gf
                return f
            ent = None if nm in und else g(s)
            isint = nm in ints or nm[1:] in INTG
            put = lambda lab, f: cs.__setitem__(f'{nm} {lab}', guard(f))
            put('>=0', lambda x, c, g=g: g(x).z >= 0)
            if ent is not None:
                put('==entry', lambda x, c, g=g, e=ent.z: g(x).z == e)
            ghost = nm[0] == '@' and nm[1] != '#'
            if not isint and nm[0] != '@':
                for lab, f in st:
                    if lab == 'pend':
                        put('==pend once set', lambda x, c, g=g, f=f: z3.Or(c.z <= 0, g(x).z == f(x, c)))
            if nm in und:
                pass
            elif isint:
                put('==count', lambda x, c, g=g: g(x).z == c.z)
                if self.unit.jumps:
                    put('<=nJ', lambda x, c, g=g: g(x).z <= NJ)
                    if ent is not None:
                        put('==entry+count', lambda x, c, g=g, e=ent.z: g(x).z == e + c.z)
                if self.unit.jumps and not ghost:
                    if 'clock' in gmod:
                        put('==c(clock)', lambda x, c, g=g: g(x).z == CNT(x.g['clock'].z))
                    for p in rvars if self.unit.sums else ():
                        put(f'<=c({p})', lambda x, c, g=g, p=p: g(x).z <= CNT(x.env[p].z))
            elif ghost:
                if nm == '@clock':
                    for lab, f in st:
                        put('==' + lab, lambda x, c, g=g, f=f: g(x).z == f(x, c))
                    for p in rvars:
                        put(f'<={p}', lambda x, c, g=g, p=p: g(x).z <= x.env[p].z)
            else:
                for lab, f in st:
                    put('==' + lab, lambda x, c, g=g, f=f: g(x).z == f(x, c))
                for o in ('clock', 'IE', 'I', 'I2'):
                    if o in gmod:
                        put('==@' + o, lambda x, c, g=g, o=o: g(x).z == x.g[o].z)
                if self.unit.sums:
                    for i in [i for i in ivars if i in mod]:
                        put(f'==SJ({i})', lambda x, c, g=g, i=i: g(x).z == SJ(x.env[i].z))
                        put(f'==SEJ({i})', lambda x, c, g=g, i=i: g(x).z == SEJ(x.env[i].z))
                    put('==SJ(count)', lambda x, c, g=g: g(x).z == SJ(c.z))
                    put('==SEJ(count)', lambda x, c, g=g: g(x).z == SEJ(c.z))
            for o in names:
                if o[0] != '@' and nm[0] != '@' and nm in und and o not in und and not isint and self.unit.jumps:
                    def pair(x, c, nm=nm, o=o):
                        a, b = x.env.get(nm), x.env.get(o)
                        if not (isinstance(a, V) and isinstance(b, V)):
                            return z3.BoolVal(True)
                        gs = [v.ok for v in (a, b) if v.ok is not None]
                        return z3.Implies(z3.And(*gs), a.z == b.z) if gs else a.z == b.z
                    cs[f'{nm} =={o}'] = pair
            for d in dirs:
                dv = lambda x, g=g, d=d: g(x).d.get(d, rv(0))
                put(f'd{d}==0', lambda x, c, dv=dv: dv(x) == 0)
                put(f'd{d}==count', lambda x, c, dv=dv: dv(x) == c.z)
                if ent is not None:
                    put(f'd{d}==entry', lambda x, c, dv=dv, e=ent.d.get(d, rv(0)): dv(x) == e)
                if self.unit.sums:
                    put(f'd{d}==SJ(count)', lambda x, c, dv=dv: dv(x) == SJ(c.z))
        for k, a in h.arrs.items():
            cs[k + ' fill==count'] = lambda x, c, k=k: x.arrs[k].fill.z == c.z
            cs[k + ' fill==entry'] = lambda x, c, k=k, e=s.arrs[k].fill.z: x.arrs[k].fill.z == e
            if a.idx is not None:
                cs[k + ' idx==entry'] = lambda x, c, k=k, e=s.arrs[k].idx: x.arrs[k].idx == e
                cs[k + ' idx<fill'] = lambda x, c, k=k: x.arrs[k].idx + 1 == x.arrs[k].fill.z
        for r in self.unit.rels(self):
            cs[r[0]] = r[1]
        # definitions that a loop may have in its entry state but lose in the body are simply dropped by the inference
        return h, cnt, cs

    def finish(self, head, e, kinds):
        """end of an iteration: a cell completed in it must be a correct sample; the ghost state starts the next sample"""
        e = e.copy()
        for k, a in e.arrs.items():
            if k not in head.arrs:
                raise Unsupported('array made in a loop')
            f0 = head.arrs[k].fill.z
            if valid(e.pc, a.fill.z == f0):
                continue
            if not valid(e.pc, a.fill.z == f0 + 1):
                raise Unsupported('fills more than one cell')
            if self.cellspec:
                self.cellspec(self, e, a.cell)
            ks = set()
            if all(valid(e.pc, x == 0) for x in a.cell.d.values()):
                ks.add('zero')
            if self.slopes and all(valid(e.pc, a.cell.d.get(d, rv(0)) == f(e)) for d, f in self.slopes.items()) and \
                    all(valid(e.pc, c) for c in self.unit.draws(self, e)):
                ks.add('full')
            a.kinds = frozenset(set(a.kinds) & ks)
            if self.unit.resets:
                for g, v in self.start.items():
                    e.g[g] = v
        return e


class Resort(Exception):
    pass


class _U:
    pass


UNDEF = _U()


def bind(node, pos, kw):
    a = node.args
    if a.vararg or a.kwarg or a.posonlyargs or a.kwonlyargs:
        raise Unsupported('signature of ' + node.name)
    names = [x.arg for x in a.args]
    if len(pos) > len(names):
        raise Unsupported('too many arguments')
    d = dict(zip(names, pos))
    for k, v in kw.items():
        if k in d or k not in names:
            raise Unsupported('keyword ' + k)
        d[k] = v
    for i, n in enumerate(names):
        if n not in d:
            if i < len(names) - len(a.defaults):
                raise Unsupported('missing argument ' + n)
            d[n] = None
    return {n: d[n] for n in names}


class SimUnit(Unit):
    """contract of a simulator function: setup(vf) -> (args, precondition); post(vf, state, value) at every return;
    at_call(vf, state, args) -> value at call sites (checks the precondition, updates the ghost state)"""
    def __init__(self, qual, setup, post, at_call=None, jumps=False, resets=False, search=None, pool=None, rels=None, draws=None, cost=1, sums=False):
        self.sums = sums
        self.hsetup, self.post, self.at_call_, self.jumps, self.resets = setup, post, at_call, jumps, resets
        self.search, self.pool_, self.rels_, self.draws_ = search, pool, rels, draws
        super().__init__(qual, None)
        self.cost = cost

    def pool(self, vf):
        return self.pool_(vf) if self.pool_ else []

    def rels(self, vf):
        return self.rels_(vf) if self.rels_ else []

    def draws(self, vf, s):
        return self.draws_(vf, s) if self.draws_ else []

    def at_call(self, vf, s, args):
        if self.at_call_ is None:
            raise Unsupported('call of ' + self.qual)
        return self.at_call_(vf, s, args)

    def verify(self, contracts):
        t0 = time.time()
        Stats.queries, Stats.time = 0, 0.0
        _cache.clear()
        _apps.clear()
        _abs.clear()
        _mono.clear()
        res = {'unit': self.name, 'qual': self.qual, 'obligations': 0, 'paths': 0, 'assumed': []}
        vf = Vf(contracts, self)
        try:
            mod, name = self.qual.rsplit('.', 1)
            f = vf.module(mod).get(name)
            untainted(mod, name, f)
            if not isinstance(f, Fun):
                res['signature'] = True
                raise Unsupported('function not found')
            args, pre = self.hsetup(vf)
            names = [a.arg for a in f.node.args.args]
            if len(names) < len(args):
                res['signature'] = True
                raise Unsupported('signature changed')
            for i in range(len(args), len(names)):
                raise Unsupported('signature changed')
            g = {k: V(0) if v is not None else V(0) for k, v in GHOSTS.items()}
            g.update(vf.start)
            vf.start = {k: g[k] for k in SAMPLE}
            s = St({'__mod__': mod, **dict(zip(names, args))}, list(pre), g, {})
            if not feasible(s.pc):
                raise Unsupported('precondition is not satisfiable')
            try:
                ends = vf.block(s.copy(), f.node.body)
            except (Failed, Unsupported):
                if not vf.warm:
                    raise
                vf.usewarm, vf.record, vf.path, vf.calls, vf.count = False, True, (), {}, 0
                ends = vf.block(s, f.node.body)
            ends = [(e, c) for e, c in ends if feasible(e.pc)]
            if not ends:
                raise Unsupported('no path')
            for e, ctl in ends:
                res['paths'] += 1
                self.post(vf, e, ctl[1] if isinstance(ctl, tuple) else None)
            res['obligations'] = vf.count
            res['status'] = 'discharged' if vf.count else 'undecided'
        except Failed as x:
            res['status'], res['reason'], res['model'] = 'failed', x.what, x.model
        except Unsupported as x:
            res['status'], res['reason'] = 'undecided', 'unsupported: ' + str(x)[:300]
        except (AttributeError, TypeError, KeyError, IndexError, ValueError, z3.Z3Exception, RecursionError) as x:
            import traceback
            res['status'], res['reason'] = 'undecided', f'engine: {type(x).__name__}: {x} ' + traceback.format_exc()[-500:]
        res['used'], res['inlined'] = sorted(vf.used), sorted(vf.inlined)
        res['queries'], res['solver_s'], res['time'] = Stats.queries, round(Stats.time, 3), round(time.time() - t0, 2)
        return res
