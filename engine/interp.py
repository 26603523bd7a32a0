"""Symbolic executor for the Python subset used by ajdmom.

Functions are read from /repo/src with ``ast`` on every run.  Every path is explored; loops over symbolic
ranges or polynomials are summarised: the body is executed once for a generic iteration, and the loop is
accepted only when every variable it changes is accumulated additively or multiplicatively by an amount that
does not depend on earlier iterations, which makes the summary (a formal sum / product) an inductive invariant
by construction.  Calls go to contracts when one is registered, otherwise the callee's body is executed.
"""
import ast
import os
from fractions import Fraction
from .expr import *
from .sums import *
from .sums import _cnt
from .frame import frames

SRC = os.environ.get('AJDMOM_SRC', '/repo/src')


class PyRaise(Exception):
    def __init__(self, exc, node=None):
        self.exc = exc
        self.node = node


class Returned(Exception):
    def __init__(self, value):
        self.value = value


class Continue(Exception):
    pass


class Break(Exception):
    pass


class Poison:
    def __init__(self, name):
        self.name = name


class PolyV:
    """symbolic Poly object"""
    def __init__(self, f, keyfor=(), depth=0, name=None, nozero=False, param=False):
        self.f, self.keyfor, self.depth, self.name = f, keyfor, depth, name
        self.nozero = nozero
        self.pristine = None            # the value at creation, while it is empty
        self.param = param
        self.memb = name or fresh('obj')
        self.mutated = False
        self.keys = None     # list of keys known to have been set explicitly, in order
        self.ident = fresh('poly')

    def __repr__(self):
        return f'Poly[{self.f!r}]'


class LTuple(tuple):
    """value of a list appended to a list in a symbolic loop"""


class ListV:
    def __init__(self, items, depth=0):
        self.items = list(items)
        self.depth = depth
        self.mutated = False


class SymListV:
    """list of symbolic length given by a function index -> value (from an annotated loop)"""
    def __init__(self, length, fn, depth=0):
        self.length, self.fn, self.depth = length, fn, depth


class GenListV:
    """list of unknown length known as a multiset: value for every assignment of the binders in the domain, per part.
    Only order-insensitive uses are supported."""
    def __init__(self, parts, depth=0):
        self.parts, self.depth, self.mutated = list(parts), depth, False

    def sum(self, term):
        """formal sum of term(value) -> (coef, key) over the elements"""
        out = []
        for pb, ib, dom, v in self.parts:
            c, k = term(v)
            out.append(Term(tuple(pb), tuple(ib), tuple(dom), c, k))
        return F(out).refresh()


class DictV:
    def __init__(self, depth=0):
        self.d = {}          # repr(key) -> (key, value)
        self.depth = depth
        self.mutated = False


class TableV:
    """abstract table: key k present iff region(k); table[k] = value(k)"""
    def __init__(self, value, region, depth=0, name='T'):
        self.value, self.region, self.depth, self.name = value, region, depth, name
        self.mutated = False


class RangeV:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class ViewV:
    def __init__(self, poly, kind):
        self.poly, self.kind = poly, kind


class FuncV:
    def __init__(self, module, node, name):
        self.module, self.node, self.name = module, node, name

    @property
    def qual(self):
        return f'{self.module.name}.{self.name}'

    @property
    def cached(self):
        return bool(self.node.decorator_list)


def memo_ok(args, value):
    """functools.cache changes nothing for hashable arguments and immutable results"""
    def imm(v):
        if isinstance(v, tuple):
            return all(imm(x) for x in v)
        return v is None or isinstance(v, (E, NumF, Cond, bool, str, int, SeqV, StrV))
    return all(imm(a) for a in args) and imm(value)


class LambdaV:
    def __init__(self, node, env, module):
        self.node, self.env, self.module = node, env, module


class ModV:
    def __init__(self, name):
        self.name = name


class BuiltinV:
    def __init__(self, name):
        self.name = name


class BoundV:
    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class ClassV:
    def __init__(self, name):
        self.name = name


class StrSeq:
    """opaque tuple of strings of symbolic length"""
    def __init__(self, name, length):
        self.name, self.length = name, length
        self.depth = 0

    def __repr__(self):
        return f'strs:{self.name}'

    def get(self, it, i):
        if not it.branch(c_and(c_le(ZERO, i), c_lt(i, self.length))):
            raise PyRaise('IndexError')
        return StrAt(self, i)


class StrAt:
    """element of an opaque tuple of strings"""
    def __init__(self, s, i):
        self.s, self.i = s, i

    def __repr__(self):
        return f'{self.s.name}[{self.i!r}]'

    def subst(self, mp):
        return StrAt(self.s, self.i.subst(mp))

    def bases(self, acc=None):
        return self.i.bases(acc)


def c_exists(b, lo, hi, cond):
    """EXISTS lo <= b < hi with cond, in canonical form"""
    cc = cond.subst({b: Sym('#e')})
    return Cond('atom', ('exists', lo, hi, cc))


def strseq_eq(a, b):
    if a.name == b.name:
        return True
    x, y = sorted([a, b], key=lambda s: s.name)
    i = symbase('#q', True)
    ne = c_not(Cond('atom', ('streq', StrAt(x, E.base(i)), StrAt(y, E.base(i)))))
    return c_and(c_eq(a.length, b.length), c_not(c_and(c_lt(ZERO, a.length), c_exists(i, ZERO, a.length, ne))))


class StrV:
    """opaque string"""
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f'str:{self.name}'


class NumF:
    """a number that is a formal sum"""
    def __init__(self, f):
        self.f = f

    def __repr__(self):
        return f'Num[{self.f!r}]'

    def subst(self, mp):
        return NumF(self.f.subst(mp))

    def bases(self, acc=None):
        return self.f.bases(acc)


class SeqIter:
    """iteration variable standing for a generic element of an opaque sequence"""


# ------------------------------------------------------------------ modules
class Module:
    cache = {}

    def __init__(self, name):
        self.name = name
        p = os.path.join(SRC, *name.split('.'))
        self.path = p + '.py' if os.path.exists(p + '.py') else os.path.join(p, '__init__.py')
        if not os.path.exists(self.path):
            raise Undecided(f'module {name} not found')
        with open(self.path) as fh:
            src = fh.read()
        self.tree = ast.parse(src)
        self.src = src
        self.env = {}
        self.classes = {}
        for n in self.tree.body:
            self.load(n)

    def load(self, n):
        if isinstance(n, ast.FunctionDef):
            self.env[n.name] = FuncV(self, n, n.name)
        elif isinstance(n, ast.ClassDef):
            self.classes[n.name] = n
            self.env[n.name] = ClassV(n.name)
        elif isinstance(n, ast.Import):
            for a in n.names:
                self.env[(a.asname or a.name).split('.')[0]] = ModV(a.name if a.asname else a.name.split('.')[0])
        elif isinstance(n, ast.ImportFrom):
            base = n.module or ''
            if n.level:
                parts = self.name.split('.')
                if not self.path.endswith('__init__.py'):
                    parts = parts[:-1]
                parts = parts[:len(parts) - (n.level - 1)]
                base = '.'.join(parts + ([n.module] if n.module else []))
            for a in n.names:
                self.env[a.asname or a.name] = ('import', base, a.name)
        elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            self.env[n.targets[0].id] = ('expr', n.value)
        elif isinstance(n, (ast.If, ast.Expr, ast.Try)):
            pass

    @classmethod
    def get(cls, name):
        if name not in cls.cache:
            cls.cache[name] = cls(name)
        return cls.cache[name]

    def lookup(self, nm):
        v = self.env.get(nm)
        if v is not None:
            why = frames(SRC).why(self.name, nm)
            if why:
                raise Undecided(f'{self.name}.{nm}: {why}')
        if isinstance(v, tuple) and v[0] == 'import':
            v = resolve_import(v[1], v[2])
            self.env[nm] = v
        return v


def resolve_import(base, name):
    if base.startswith('ajdmom'):
        if name == 'Poly':
            return ClassV('Poly')
        m = Module.get(base)
        v = m.lookup(name)
        if v is None:
            try:
                Module.get(base + '.' + name)
                return ModV(base + '.' + name)
            except Undecided:
                raise Undecided(f'cannot resolve {base}.{name}')
        return v
    if (base, name) == ('fractions', 'Fraction'):
        return BuiltinV('Fraction')
    if base == 'math':
        return BuiltinV('math.' + name)
    if base == 'collections' and name == 'UserDict':
        return ClassV('UserDict')
    if base == 'functools' or base == 'itertools' or base == 'operator':
        return BuiltinV(base + '.' + name)
    return BuiltinV(base + '.' + name)


BUILTINS = {'len', 'range', 'tuple', 'list', 'sum', 'abs', 'isinstance', 'enumerate', 'zip', 'str', 'max', 'min', 'int',
            'print', 'dict', 'float', 'sorted', 'reversed', 'all', 'any', 'bool', 'open', 'repr', 'type', 'pow', 'set'}
EXC = {'ValueError', 'NotImplementedError', 'Exception', 'TypeError', 'KeyError', 'AttributeError', 'IndexError',
       'ZeroDivisionError', 'RuntimeError', 'ArithmeticError', 'AssertionError', 'LookupError'}


def same_sig(q, fv):
    from .unit import same_signature
    return same_signature(q, fv)


class Frame:
    def __init__(self):
        self.delta = {}      # id -> [obj, F]
        self.reads = {}
        self.sets = []       # (table obj, key, value)
        self.appends = []
        self.dels = []
        self.raises = []     # existential raises: (pb, ib, dom, exc)
        self.bags = {}       # tuple-of-tuples lists edited in this iteration: id -> (object, state before)
        self.events = []
        self.lists = None    # lists edited in this iteration (must be restored by its end): id -> (list, items before)


MEASURES = {}      # qualname -> fn(*args) -> [(condition, value)]: decreases in every call within a recursive group


def psum_(xs):
    s = ZERO
    for x in xs:
        s = s + x
    return s


class Interp:
    def __init__(self, contracts=None, unit=None, opts=None):
        self.contracts = contracts or {}
        self.unit = unit
        self.pc = []
        self.dec, self.pos, self.new = [], 0, []
        self.frames = [Frame()]
        self.active_filters = []
        self.facts = {}             # assumed facts (kept out of path guards)
        self.active = []            # active iterations: (poly ident, key, W base)
        self.calldepth = 0
        self.callseq = self.callid = 0
        self.steps = 0
        self.opts = opts or {}
        self.assumed = set()        # names of opaque things used
        self.under = set()          # quals being verified (body executed instead of contract)
        self.requires_checked = []
        self.fork_limit = (opts or {}).get('forks', 4000)
        self.npaths = 0
        self.inlined = set()
        self.used_contracts = set()
        self.flat, self.top = set(), None       # contracts used without a decreasing measure
        self.measures = MEASURES
        self.exact_w = {}           # coefficient symbol of a generic item -> its constant value
        self.lens = []              # (polynomial without zeros, its number of items)

    # ------------------------------------------------------------ paths
    @property
    def depth(self):
        return len(self.frames) - 1

    def all_paths(self, thunk):
        base = list(self.pc)
        out = []
        work = [[]]
        saved = (self.pc, self.dec, self.pos, self.new)
        try:
            while work:
                dec = work.pop()
                self.pc, self.dec, self.pos, self.new = list(base), list(dec), 0, []
                self.npaths += 1
                if self.npaths > self.fork_limit:
                    raise Undecided('too many paths')
                r = thunk()
                out.append(([c for c in self.pc[len(base):] if id(c) not in self.facts], r))
                work.extend(self.new)
        finally:
            self.pc, self.dec, self.pos, self.new = saved
        return out

    def fact(self, *cs):
        for c in cs:
            self.facts[id(c)] = c
            self.pc.append(c)

    def branch(self, c):
        if isinstance(c, bool):
            return c
        if c.op == 'true':
            return True
        if c.op == 'false':
            return False
        if self.pos < len(self.dec):
            d = self.dec[self.pos]
            self.pos += 1
            v, forced = d
            if not forced or (v and c.op in ('eq0', 'and')):
                self.pc.append(c if v else c_not(c))
            return v
        t = feasible(self.pc + [c])
        f = feasible(self.pc + [c_not(c)]) if t else True
        if t and f:
            self.new.append(self.dec[:self.pos] + [(False, False)])
            self.dec.append((True, False))
            self.pos += 1
            self.pc.append(c)
            return True
        self.dec.append((t, True))
        self.pos += 1
        if c.op in ('eq0', 'and') and t:
            self.pc.append(c)        # implied, but useful as a substitution
        return t

    def truth(self, v):
        if isinstance(v, Cond):
            return self.branch(v)
        if isinstance(v, (bool, str)) or v is None:
            return bool(v)
        if isinstance(v, E):
            return not self.branch(c_eq(v, ZERO))
        if isinstance(v, (tuple,)):
            return len(v) > 0
        if isinstance(v, ListV):
            self.read_obj(v)
            return len(v.items) > 0
        if isinstance(v, SeqV):
            return not self.branch(c_eq(v.length(), ZERO))
        raise Undecided(f'truth of {type(v).__name__}')

    # ------------------------------------------------------------ running functions
    def run_function(self, fv, args, kwargs=None):
        """execute a FuncV body; returns value (raises PyRaise)"""
        node = fv.node
        env = {}
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        kwargs = dict(kwargs or {})
        if a.vararg or a.kwarg or a.kwonlyargs:
            raise Undecided('star arguments')
        for n, v in zip(names, args):
            env[n] = v
        if len(args) > len(names):
            raise PyRaise('TypeError')
        for n in names[len(args):]:
            if n in kwargs:
                env[n] = kwargs.pop(n)
        nd = len(a.defaults)
        for n, d in zip(names[len(names) - nd:], a.defaults):
            if n not in env:
                env[n] = self.ev(d, {}, fv.module)
        if kwargs or any(n not in env for n in names):
            raise PyRaise('TypeError')
        self.calldepth += 1
        if self.calldepth > 40:
            raise Undecided('call depth')
        self.callseq += 1
        prev, self.callid = self.callid, self.callseq
        try:
            self.block(node.body, env, fv.module)
        except Returned as r:
            return r.value
        finally:
            self.calldepth -= 1
            self.callid = prev
        return None

    def call(self, fv, args, kwargs=None):
        v = self.call_(fv, args, kwargs)
        if fv.cached and not memo_ok(list(args) + list((kwargs or {}).values()), v):
            raise Undecided(f'cached results of {fv.qual}')
        return v

    def call_(self, fv, args, kwargs=None):
        q = fv.qual
        c = self.contracts.get(q)
        if c is not None and same_sig(q, fv):
            names = [x.arg for x in fv.node.args.posonlyargs + fv.node.args.args]
            full = self.bind_args(fv, args, kwargs)
            if full is not None:
                r = c(self, *[full[n] for n in names])
                if r is not NotImplemented:
                    self.used_contracts.add(q)
                    if not self.decreases(q, [full[n] for n in names]):
                        self.flat.add(q)
                    return r
        self.inlined.add(q)
        return self.run_function(fv, args, kwargs)

    def decreases(self, q, args):
        """the measure of the callee is below that of the function being verified (termination of recursive groups)"""
        m, m0 = self.measures.get(q), self.measures.get(self.unit.qual) if self.unit is not None else None
        if self.top is None:
            return False
        if m is None and self.unit is not None and q == self.unit.qual:      # an argument, or the sum of the arguments, that goes down
            ns = [(a, b) for a, b in zip(args, self.top) if isinstance(a, (E, int)) and isinstance(b, (E, int)) and not isinstance(a, bool)]
            ns += [(psum_([a for a, _ in ns]), psum_([b for _, b in ns]))] if ns else []
            return any(valid(self.pc, c_and(c_lt(toE(a), toE(b)), c_le(ZERO, toE(a)))) for a, b in ns)
        if m is None or m0 is None:
            return False
        x, x0 = m(*args), m0(*self.top)
        return all(valid(self.pc, c_or(c_not(c_and(c, c0)), c_and(c_lt(e, e0), c_le(ZERO, e)))) for c, e in x for c0, e0 in x0)

    def call_under(self, fv, args):
        self.top = list(args)
        v = self.run_function(fv, args)
        if fv.cached and not memo_ok(args, v):
            raise Undecided(f'cached results of {fv.qual}')
        return v

    def bind_args(self, fv, args, kwargs):
        a = fv.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = dict(zip(names, args))
        for k, v in (kwargs or {}).items():
            env[k] = v
        nd = len(a.defaults)
        for n, d in zip(names[len(names) - nd:], a.defaults):
            if n not in env:
                env[n] = self.ev(d, {}, fv.module)
        return env if all(n in env for n in names) else None

    # ------------------------------------------------------------ statements
    def block(self, stmts, env, mod):
        for s in stmts:
            self.stmt(s, env, mod)

    def stmt(self, s, env, mod):
        self.steps += 1
        if self.steps > 400000:
            raise Undecided('step limit')
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Undecided(f'statement {type(s).__name__} line {s.lineno}')
        m(s, env, mod)

    def s_Pass(self, s, env, mod):
        pass

    def s_Expr(self, s, env, mod):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, env, mod)

    def s_Return(self, s, env, mod):
        raise Returned(None if s.value is None else self.ev(s.value, env, mod))

    def s_Raise(self, s, env, mod):
        e = s.exc
        if isinstance(e, ast.Call):
            e = e.func
        name = e.id if isinstance(e, ast.Name) else 'Exception'
        if name in env and isinstance(env[name], str):
            name = env[name]
        raise PyRaise(name, s)

    def s_Import(self, s, env, mod):
        for a in s.names:
            env[(a.asname or a.name).split('.')[0]] = ModV(a.name)

    def s_ImportFrom(self, s, env, mod):
        for a in s.names:
            env[a.asname or a.name] = resolve_import(s.module, a.name)

    def s_FunctionDef(self, s, env, mod):
        raise Undecided('nested function')

    def s_Assert(self, s, env, mod):
        if not self.truth(self.ev(s.test, env, mod)):
            raise PyRaise('AssertionError', s)

    def s_Global(self, s, env, mod):
        raise Undecided('global')

    def s_Continue(self, s, env, mod):
        raise Continue()

    def s_Break(self, s, env, mod):
        raise Break()

    def empty_guard(self, s, env, mod):
        """if <list is not empty>: for .. in list: ..   -- the guard changes nothing"""
        t = s.test
        if s.orelse or not all(isinstance(x, ast.For) and isinstance(x.iter, ast.Name) for x in s.body):
            return False
        names = {x.iter.id for x in s.body}
        if len(names) != 1 or not isinstance(env.get(next(iter(names))), (GenListV, ListV)):
            return False
        nm = next(iter(names))
        o = env[nm]
        if isinstance(o, ListV) or o.depth < self.depth and any(id(o) == id(x) for x, _ in self.frames[-1].appends):
            return False
        allowed = (ast.Compare, ast.Call, ast.Name, ast.Load, ast.Constant, ast.cmpop, ast.UnaryOp, ast.Not, ast.List, ast.Tuple)
        if not all(isinstance(x, allowed) for x in ast.walk(t)) or any(isinstance(x, ast.Name) and x.id not in (nm, 'len', 'bool') for x in ast.walk(t)):
            return False
        code = compile(ast.Expression(t), '<guard>', 'eval')
        g = {'__builtins__': {}, 'len': len, 'bool': bool}
        return not eval(code, g, {nm: []}) and all(eval(code, g, {nm: [None] * n}) for n in (1, 2, 3, 5, 8))

    def s_If(self, s, env, mod):
        if self.empty_guard(s, env, mod):
            self.block(s.body, env, mod)
            return
        if self.opts.get('ifmerge') and self.merge_if(s, env, mod):
            return
        if self.truth(self.ev(s.test, env, mod)):
            self.block(s.body, env, mod)
        else:
            self.block(s.orelse, env, mod)

    def pure_test(self, n, env, mod):
        """the condition of an if statement without case split (None: not a plain comparison)"""
        if isinstance(n, ast.BoolOp):
            cs = [self.pure_test(x, env, mod) for x in n.values]
            if any(c is None for c in cs):
                return None
            return c_and(*cs) if isinstance(n.op, ast.And) else c_or(*cs)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            c = self.pure_test(n.operand, env, mod)
            return None if c is None else c_not(c)
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and all(isinstance(x, (ast.Compare, ast.BinOp, ast.Name, ast.Constant, ast.Load,
                ast.UnaryOp, ast.operator, ast.unaryop, ast.cmpop)) for x in ast.walk(n)):
            a, b = self.ev(n.left, env, mod), self.ev(n.comparators[0], env, mod)
            if isinstance(a, E) and isinstance(b, E):
                c = self.compare(n.ops[0], a, b)
                return c if isinstance(c, Cond) else TRUE if c else FALSE
        return None

    def merge_if(self, s, env, mod):
        """an if without else whose body only adds to polynomials: one guarded effect instead of two paths"""
        if s.orelse:
            return False
        an = assigned_names(s)
        if any(n in env and not isinstance(env[n], Poison) for n in an):
            return False
        if any(isinstance(x, (ast.Return, ast.Break, ast.Continue, ast.Raise)) for b in s.body for x in ast.walk(b)):
            return False
        c = self.pure_test(s.test, env, mod)
        if c is None or c.op in ('true', 'false') or not feasible(self.pc + [c]) or valid(self.pc, c):
            return False

        def thunk():
            e = dict(env)
            self.frames.append(Frame())
            try:
                self.block(s.body, e, mod)
                return self.frames[-1]
            finally:
                self.frames.pop()
        saved = self.pc
        self.pc = list(self.pc) + [c]
        try:
            res = self.all_paths(thunk)
        except PyRaise:
            raise Undecided('exception under a merged condition')
        finally:
            self.pc = saved
        cur = self.frames[-1]
        eff = {}
        for guard, fr in res:
            if fr.sets or fr.appends or fr.events or fr.bags or fr.dels:
                raise Undecided('effect under a merged condition')
        for guard, fr in res:
            g = (c,) + tuple(guard)
            for r in fr.raises:
                cur.raises.append((r[0], r[1], g + r[2], r[3]))
            for i, (o, f) in fr.delta.items():
                eff.setdefault(i, [o, FZERO])
                eff[i][1] = eff[i][1] + f.guard(*g)
        for o, f in eff.values():
            self.poly_add(o, f)
        for n in an:
            env[n] = Poison(n)
        return True

    def s_Try(self, s, env, mod):
        if s.finalbody:
            raise Undecided('finally')
        try:
            self.block(s.body, env, mod)
        except PyRaise as e:
            for h in s.handlers:
                names = []
                if h.type is None:
                    names = ['*']
                elif isinstance(h.type, ast.Name):
                    names = [h.type.id]
                elif isinstance(h.type, ast.Tuple):
                    names = [x.id for x in h.type.elts]
                if '*' in names or e.exc in names or 'Exception' in names or \
                        ('LookupError' in names and e.exc in ('KeyError', 'IndexError')) or \
                        ('ArithmeticError' in names and e.exc == 'ZeroDivisionError'):
                    self.block(h.body, env, mod)
                    return
            raise
        self.block(s.orelse, env, mod)

    def s_With(self, s, env, mod):
        for it in s.items:
            v = self.ev(it.context_expr, env, mod)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env, mod)
        self.block(s.body, env, mod)

    def s_Assign(self, s, env, mod):
        v = self.ev(s.value, env, mod)
        for t in s.targets:
            self.assign(t, v, env, mod)

    def s_AnnAssign(self, s, env, mod):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env, mod), env, mod)

    def s_AugAssign(self, s, env, mod):
        op = s.op
        t = s.target
        rhs_first = None
        if isinstance(t, ast.Name):
            old = self.ev(t, env, mod)
            new = self.ev(s.value, env, mod)
            if isinstance(old, StackV) and isinstance(op, ast.Add):
                old.call_extend(self, [new], {})
                return
            if isinstance(old, ListV) and isinstance(op, ast.Add):
                self.mut_list(old)
                items = self.iter_concrete(new)
                if items is None:
                    raise Undecided('list +=')
                old.items.extend(items)
                return
            env[t.id] = self.binop(op, old, new, s)
        elif isinstance(t, ast.Subscript):
            obj = self.ev(t.value, env, mod)
            idx = self.ev_index(t.slice, env, mod)
            new = self.ev(s.value, env, mod)
            if isinstance(obj, PolyV):
                if isinstance(op, ast.Add):
                    d = new
                elif isinstance(op, ast.Sub):
                    d = self.num_neg(new)
                else:
                    raise Undecided('augmented poly item')
                c = self.contains(obj, idx)
                if not self.truth(c):
                    raise PyRaise('KeyError', s)
                self.poly_add(obj, self.term_f(d, idx), at=idx)
                return
            old = self.getitem(obj, idx)
            self.setitem(obj, idx, self.binop(op, old, new, s))
        else:
            raise Undecided('augassign target')

    def s_Delete(self, s, env, mod):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                obj = self.ev(t.value, env, mod)
                idx = self.ev_index(t.slice, env, mod)
                self.delitem(obj, idx)
            else:
                raise Undecided('del')

    def s_While(self, s, env, mod):
        hook = self.opts.get('while')
        if hook:
            r = hook(self, s, env, mod)
            if r is not NotImplemented:
                return
        n = 0
        while True:
            c = self.ev(s.test, env, mod)
            if isinstance(c, Cond):
                # only accept loops whose condition is decided by the path condition
                if c.op not in ('true', 'false'):
                    if not (valid(self.pc, c) or valid(self.pc, c_not(c))):
                        raise Undecided(f'while loop line {s.lineno}')
            if not self.truth(c):
                self.block(s.orelse, env, mod)
                return
            n += 1
            if n > 400:
                raise Undecided('while unrolling')
            try:
                self.block(s.body, env, mod)
            except Continue:
                continue
            except Break:
                return

    # ------------------------------------------------------------ loops
    def s_For(self, s, env, mod):
        it = self.ev(s.iter, env, mod)
        hook = self.opts.get('for')
        if hook:
            r = hook(self, s, it, env, mod)
            if r is not NotImplemented:
                return
        if self.opts.get('table'):
            from .tables import table_loop
            if table_loop(self, s, it, env, mod) is not NotImplemented:
                return
        if self.opts.get('list'):
            from .tables import list_loop
            if list_loop(self, s, it, env, mod) is not NotImplemented:
                return
        items = self.iter_concrete(it)
        if items is not None:
            brk = False
            for v in items:
                self.assign(s.target, v, env, mod)
                try:
                    self.block(s.body, env, mod)
                except Continue:
                    continue
                except Break:
                    brk = True
                    break
            if not brk:
                self.block(s.orelse, env, mod)
            return
        if s.orelse:
            raise Undecided('for-else')
        self.sym_for(s, it, env, mod)

    def iter_concrete(self, it):
        if isinstance(it, tuple):
            return list(it)
        if isinstance(it, ListV) or isinstance(it, StackV) and it.head is None:
            self.read_obj(it)
            return list(it.items)
        if isinstance(it, SeqV):
            if it.explicit():
                return [x[1] for x in it.p]
            return None
        if isinstance(it, RangeV):
            lo, hi = it.lo, it.hi
            if lo.is_const() and hi.is_const():
                return [E.const(i) for i in range(int(lo.cval()), int(hi.cval()), it.step)]
            n = (hi - lo) * it.step
            if n.is_const():
                cnt = int(n.cval())
                return [lo + E.const(i * it.step) for i in range(max(0, cnt if it.step == 1 else cnt))] if abs(it.step) == 1 else None
            return None
        if isinstance(it, DictV):
            self.read_obj(it)
            return [k for k, _ in it.d.values()]
        if isinstance(it, ViewV) and isinstance(it.poly, DictV):
            if it.kind == 'items':
                return [(k, v) for k, v in it.poly.d.values()]
            if it.kind == 'keys':
                return [k for k, _ in it.poly.d.values()]
            return [v for _, v in it.poly.d.values()]
        return None

    def iterations(self, it):
        """generic iterations of a symbolic iterable: list of (binders pb, ib, dom, weight, loopvalue, cleanup)"""
        if isinstance(it, RangeV):
            b = symbase(fresh('i'), True)
            v = E.base(b)
            if it.step == 1:
                dom = (c_le(it.lo, v), c_lt(v, it.hi))
            elif it.step == -1:
                dom = (c_lt(it.hi, v), c_le(v, it.lo))
            else:
                raise Undecided('range step')
            return [('range', (), (b,), dom, None, v, None)]
        if isinstance(it, PolyKeys):
            return [itn + (tuple(g),) for itn, g, kz in it.parts]
        from .tables import KeyFilter
        if isinstance(it, KeyFilter):
            idx = tuple(symbase(fresh('i'), True) for _ in range(it.table.spec['arity']))
            q = tuple(E.base(b) for b in idx)
            return [('keys', (), idx, (it.dom(q), it.table.region(q)), None, q, None)]
        if isinstance(it, GenListV):
            self.read_obj(it)
            if any(id(o) == id(it) for fr in self.frames for o, _ in fr.appends):
                raise Undecided('list read while it is being built')
            out = []
            for pb, ib, dom, v in it.parts:
                t = Term(tuple(pb), tuple(ib), tuple(dom), ONE, (v,) if not isinstance(v, tuple) else v).refresh()
                out.append(('gen', t.pb, t.ib, t.dom, None, t.key if isinstance(v, tuple) else t.key[0], None))
            return out
        poly, kind = None, 'keys'
        if isinstance(it, PolyV):
            poly = it
        elif isinstance(it, ViewV) and isinstance(it.poly, PolyV):
            poly, kind = it.poly, it.kind
        if poly is not None:
            self.read_obj(poly)
            out = []
            for t in poly.f.ts:
                t = t.refresh()
                w = symbase(fresh('w'), False)
                key = t.key
                kv = key_value(key)
                val = kv if kind == 'keys' else (kv, E.base(w)) if kind == 'items' else E.base(w)
                if self.lone_term(poly.f, t):
                    self.exact_w[w] = t.coef
                out.append(('poly', t.pb, t.ib, t.dom, (w, t.coef), val, (poly.ident, key, w, poly)))
            return out
        raise Undecided(f'iteration over {type(it).__name__}')

    def lone_term(self, f, t):
        """a constant monomial whose key no other term can have: one item of the dictionary, with just this coefficient"""
        if t.pb or t.ib or t.dom or not t.coef.is_const() or is_zero(t.coef) or not isinstance(t.key, tuple):
            return False
        n = 0
        for o in f.ts:
            if o is t or (not o.pb and not o.ib and not o.dom and o.coef == t.coef and repr(o.key) == repr(t.key)):
                n += 1
                continue
            c = eq_val(o.key, t.key) if isinstance(o.key, tuple) and len(o.key) == len(t.key) else None
            if c is False:
                continue
            if c is None or feasible(self.pc + list(o.dom) + inv_conds(o.pb) + ([] if c is True else [c])):
                return False
        return n == 1

    def lookup(self, p, key):
        """p[key] when just constant monomials can have this key (None: not known)"""
        if p.depth < self.depth:
            self.read_obj(p)
        try:
            key = self.askey(key)
        except Undecided:
            return None
        tot = ZERO
        for t in p.f.ts:
            c = eq_val(t.key, key) if isinstance(t.key, tuple) and len(t.key) == len(key) else None
            if c is False:
                continue
            if c is None:
                return None
            cs = [] if c is True else [c]
            if not feasible(self.pc + list(t.dom) + inv_conds(t.pb) + cs):
                continue
            if t.pb or t.ib or not all(valid(self.pc, x) for x in list(t.dom) + cs):
                return None
            tot = tot + t.coef
        return tot if tot.is_const() and not is_zero(tot) else None

    def sign_of(self, f, g):
        """1: f == g, -1: f == -g, 0: not known"""
        for sg, h in ((1, g), (-1, -g)):
            try:
                if equal(f, h, self.pc, self.defs(), want_model=False) is None:
                    return sg
            except Undecided:
                pass
        return 0

    def defs(self):
        from .unit import DEFS
        return DEFS

    def stays_nonzero(self, o, total):
        """every iteration of the loop adds one monomial with a non-zero coefficient, each with another key"""
        if not isinstance(o, PolyV):
            return False
        cs = []
        for itn, guard, e, fr, status in total:
            kind, pb, ib, dom, w, val, act = itn
            if any(d[0] is o for d in fr.dels):
                return False
            if id(o) not in fr.delta:
                continue
            ts = fr.delta[id(o)][1].ts
            if status != 'ok' or kind != 'poly' or len(ts) != 1 or ts[0].pb or ts[0].ib or ts[0].dom or w is None or not isinstance(ts[0].key, tuple):
                return False
            ar = ts[0].coef.lin(w[0])
            if ar is None or ar[1].t or not ar[0].is_const() or is_zero(ar[0]) or not any(self.w_nonzero(g, w[0]) for g in guard):
                return False
            if any(x != 'i' for a, _ in pb for x in a.shape):
                return False
            bs = [b for _, x in pb for b in x] + list(ib)
            cs.append((bs, w[0], list(dom) + list(guard) + inv_conds(pb), ts[0].key))
        for i, (bs, w, dom, key) in enumerate(cs):
            for j, (bs2, w2, dom2, key2) in enumerate(cs[:i + 1]):
                mp = {b: E.base(symbase(b.key + "'", b.isint)) for b in bs2 + [w2]}
                k2 = val_subst(key2, mp)
                c = eq_val(key, k2) if len(key) == len(k2) else None
                if c is None:
                    return False
                if c is False:
                    continue
                pc = self.pc + dom + [d.subst(mp) for d in dom2] + ([] if c is True else [c])
                if i == j:
                    pc.append(c_or(*[c_not(c_eq(E.base(b), mp[b])) for b in bs2]) if bs2 else FALSE)
                if feasible(pc):
                    return False
        return True

    def bag_fold(self, s, bag, env, mod):
        """for t in T: x = x * power(t)  over all triples of a tuple of triples (x: such a tuple, or a number)"""
        t = tuple(E.base(symbase(fresh('t'), True)) for _ in range(3))
        e0 = dict(env)
        names = assigned_names(s)
        pre = {}
        for n in names:
            v = env.get(n)
            if isinstance(v, BagSeq):
                v = v.as_bag(self)
            if isinstance(v, Bag):
                b = Base('T', fresh('pre_' + n))
                pre[n] = (b, v)
                e0[n] = Bag((b,), ())
            elif isinstance(v, (E, NumF)):
                b = symbase(fresh('pre_' + n), False)
                pre[n] = (b, v)
                e0[n] = E.base(b)
            elif n in env:
                e0[n] = Poison(n)

        def thunk():
            e = dict(e0)
            self.frames.append(Frame())
            try:
                self.assign(s.target, t, e, mod)
                try:
                    self.block(s.body, e, mod)
                except Continue:
                    pass
            except (Break, Returned, PyRaise):
                raise Undecided('fold over a tuple of triples')
            finally:
                fr = self.frames.pop()
            if fr.delta or fr.sets or fr.appends or fr.events or fr.dels or fr.raises or fr.bags:
                raise Undecided('fold over a tuple of triples with effects')
            return e
        saved = self.pc
        self.pc = list(self.pc) + [ge_(tlen(Bag((b,), ())), 1) for b, _ in pre.values() if b.kind == 'T']
        try:
            paths = self.all_paths(thunk)
            outs = {n: [] for n in pre}
            for guard, e in paths:
                for n in pre:
                    v = e[n].as_bag(self) if isinstance(e[n], BagSeq) else e[n]
                    outs[n].append((guard, v))
            res = {n: self.fold_result(pre[n], outs[n], t, bag) for n in pre}
        finally:
            self.pc = saved
        for n in names:
            env[n] = res[n] if n in pre else Poison(n)

    def fold_result(self, pre, outs, t, bag):
        b, old = pre
        if b.kind == 'T':
            same = Bag((b,), ())
            if all(v == same for _, v in outs):
                return old
            for g, v in outs:
                if not (v == Bag((b,), (t,)) or v == same and valid(self.pc + g, c_eq(t[2], ZERO))):
                    raise Undecided('fold over a tuple of triples')
            return old.mul(bag)
        same = E.base(b)
        if all(isinstance(v, E) and v == same for _, v in outs):
            return old
        lin = None
        for g, v in outs:
            if isinstance(v, E) and v == same and valid(self.pc + g, c_eq(t[2], ZERO)):
                continue
            if not isinstance(v, E):
                raise Undecided('fold over a tuple of triples')
            co = v.lin(b)
            if not co or co[1].t:
                raise Undecided('fold over a tuple of triples')
            w = bval_inverse(co[0], t)
            if w is None or lin is not None and repr(lin) != repr(w):
                raise Undecided('fold over a tuple of triples')
            lin = w
        if lin is None:
            raise Undecided('fold over a tuple of triples')
        return self.num_mul(old, bval(bag, *lin))

    def sym_for(self, s, it, env, mod):
        if isinstance(it, (Bag, BagSeq)) and not (isinstance(it, BagSeq) and it.head):
            return self.bag_fold(s, it.as_bag(self) if isinstance(it, BagSeq) else it, env, mod)
        its = self.iterations(it)
        assigned = assigned_names(s)
        pre, presym = {}, set()
        body_env = dict(env)
        for n in assigned:
            if n in env:
                v = env[n]
                if isinstance(v, (E, NumF)):
                    b = symbase(fresh('pre_' + n), False)
                    pre[n] = ('num', b, v)
                    presym.add(b)
                    body_env[n] = E.base(b)
                elif isinstance(v, PolyV):
                    shape = shape_of(v)
                    pre[n] = ('poly', fresh('pre_' + n), v, shape)
                    body_env[n] = Poison(n) if shape is None else ('prepoly', n)
                else:
                    pre[n] = ('other', None, v)
                    body_env[n] = Poison(n)
        total = []       # (iteration, guard, post env, frame)
        its = [(i[:7], i[7] if len(i) > 7 else ()) for i in its]
        for itn, extra in its:
            kind, pb, ib, dom, w, val, act = itn

            def thunk():
                e = dict(body_env)
                self.pc.extend(extra)
                self.frames.append(Frame())
                self.frames[-1].lists = {}
                for n, p in pre.items():
                    if p[0] == 'poly' and p[3] is not None:
                        o = PolyV(fatom(p[1], (), p[3]), p[2].keyfor, self.depth, name=p[1])
                        e[n] = o
                if act:
                    self.active.append(act)
                status = 'ok'
                try:
                    try:
                        self.assign(s.target, val, e, mod)
                        self.block(s.body, e, mod)
                    except Continue:
                        pass
                    except Break:
                        status = 'break'
                    except Returned as x:
                        status = 'return'
                        self.frames[-1].ret = x.value
                    except PyRaise as x:
                        status = ('raise', x.exc)
                    self.settle_lists()
                    return e, self.frames[-1], status
                finally:
                    fr = self.frames.pop()
                    fr.after = [(o, (o.head, o.edits, o.n, o.den, o.asm)) for o, _ in fr.bags.values()]
                    for o, st in fr.bags.values():
                        o.head, o.edits, o.n, o.den = st
                    for o, st in fr.lists.values():
                        o.items = list(st)
                    if act:
                        self.active.pop()
            saved_pc = self.pc
            self.pc = list(self.pc) + list(dom) + inv_conds(pb)
            try:
                if feasible(self.pc):
                    for guard, (e, fr, status) in self.all_paths(thunk):
                        total.append((itn, guard, e, fr, status))
            finally:
                self.pc = saved_pc
        self.iterated = it
        self.summarise(s, [i for i, _ in its], total, env, pre, presym, assigned, mod)

    def settle_lists(self):
        """lists edited in a generic iteration: either restored by its end, or only appended to"""
        fr = self.frames[-1]
        for o, st in fr.lists.values():
            k = len(st)
            if len(o.items) < k or any(a is not b and eq_val(a, b) is not True for a, b in zip(o.items, st)):
                raise Undecided('list modified inside a symbolic loop')
            if len(o.items) > k:
                if id(o) in fr.reads:
                    raise Undecided('list read while it is being built')
                for v in o.items[k:]:
                    fr.appends.append((o, ((), (), (), v)))
        for o, _ in fr.appends:
            if id(o) in fr.reads:
                raise Undecided('list read while it is being built')

    def summarise(self, s, its, total, env, pre, presym, assigned, mod):
        reads, written = {}, {}
        if self.search_loop(s, its, total, env, assigned, mod):
            return
        for itn, guard, e, fr, status in total:
            if fr.bags:
                raise Undecided('tuple of tuples edited in a loop')
            if status in ('break', 'return'):
                raise Undecided(f'{status} inside a symbolic loop (line {s.lineno})')
            for g in guard:
                if presym & g.bases():
                    raise Undecided('condition depends on an accumulator')
            reads.update(fr.reads)
            for i, (o, f) in fr.delta.items():
                written[i] = o
        self.poly_deletions(total)
        clash = [o for i, o in written.items() if i in reads]
        if clash:
            raise Undecided('loop reads an object that it modifies')
        cur = self.frames[-1]
        prenames = {p[1] for p in pre.values() if p[0] == 'poly'}
        # heap effects
        eff = {}
        for itn, guard, e, fr, status in total:
            kind, pb, ib, dom, w, val, act = itn
            if status != 'ok':
                cur.raises.append((pb, ib, tuple(dom) + tuple(guard), status[1]))
                continue
            for r in fr.raises:
                cur.raises.append((pb + r[0], ib + r[1], tuple(dom) + tuple(guard) + r[2], r[3]))
            for i, (o, f) in fr.delta.items():
                eff.setdefault(i, [o, FZERO])
                eff[i][1] = eff[i][1] + self.bind(itn, guard, f, presym, prenames)
            for (o, op, ib0, dom0, key) in fr.sets:
                if pb:
                    raise Undecided('table store in a loop over a polynomial')
                ent = (op, tuple(ib) + tuple(ib0), tuple(dom) + tuple(guard) + tuple(dom0), key)
                if o.depth >= self.depth:
                    o.ops.append(ent)
                else:
                    cur.sets.append((o,) + ent)
            for (o, value) in fr.appends:
                self.loop_append(o, value, itn, guard)
            for ev in fr.events:
                cur.events.append(('each', itn, tuple(guard), ev))
        for i, (o, f) in eff.items():
            nz = isinstance(o, PolyV) and o.pristine is o.f and o.depth >= self.depth and self.stays_nonzero(o, total)
            self.poly_add(o, f)
            if nz:
                o.nozero = True
        # variables
        for n in assigned:
            if n not in pre:
                # defined in the loop body only
                env[n] = Poison(n)
                continue
            p = pre[n]
            if p[0] == 'num':
                try:
                    env[n] = self.sum_var(n, p, its, total, presym, prenames)
                except Undecided:
                    if not self.opts.get('havoc') or self.depth:
                        raise
                    env[n] = Sym(fresh('some'), False)      # any value at all
            elif p[0] == 'poly':
                env[n] = self.sum_poly(n, p, its, total, presym, prenames)
            else:
                if all(e.get(n) is not None and isinstance(e[n], Poison) for _, _, e, _, _ in total):
                    env[n] = p[2]
                else:
                    env[n] = Poison(n)

    def search_loop(self, s, its, total, env, assigned, mod):
        """for i in range(..): if cond(i): <constant effect>; break/return     -> EXISTS i. cond(i)"""
        hits = [x for x in total if x[4] in ('break', 'return')]
        if not hits or len(its) != 1 or its[0][0] != 'range':
            return False
        itn = its[0]
        b = itn[2][0]
        lo, hi = var_range(Term((), itn[2], tuple(strict_to_le(d) for d in itn[3]), ONE, ()), b)
        tgt = []
        for x in ast.walk(s.target):
            if isinstance(x, ast.Name):
                tgt.append(x.id)
        local = [n for n in assigned if n not in env]
        for _, g, e, fr, st in total:
            if fr.delta or fr.sets or fr.appends or fr.events or fr.dels or fr.raises:
                raise Undecided('search loop with effects')
            if fr.bags and not (st == 'return' and not any(o.call != self.callid for o, _ in fr.bags.values()) and immutable(fr.ret)) and \
                    not (st == 'break' and len(hits) == 1):
                raise Undecided('search loop with effects')
            if st == 'ok':
                for n in assigned:
                    if n not in tgt and n not in local and not (isinstance(e.get(n), Poison) or
                       isinstance(e.get(n), E) and repr(e[n]).startswith('pre_') or isinstance(e.get(n), tuple) and e[n][:1] == ('prepoly',)):
                        raise Undecided('search loop with effects')
            elif st not in ('break', 'return'):
                raise Undecided('search loop that raises')
        outs = []
        if all(x[4] == 'return' and immutable(x[3].ret) for x in hits) and not \
                all(isinstance(x[3].ret, (bool, str)) or x[3].ret is None for x in hits):
            return self.search_value(itn, hits, b, lo, hi, tgt + local, env)
        for _, g, e, fr, st in hits:
            if st == 'return':
                v = fr.ret
                if not (isinstance(v, (bool, str)) or v is None or isinstance(v, E) and b not in v.bases()):
                    raise Undecided('search loop result')
                outs.append(('return', repr(v), v))
            else:
                ch = []
                for n in assigned:
                    if n in tgt or n in local or isinstance(e.get(n), Poison):
                        continue
                    v = e.get(n)
                    if isinstance(v, E) and repr(v).startswith('pre_'):
                        continue
                    if not (isinstance(v, (bool, str)) or v is None or isinstance(v, E) and b not in v.bases()):
                        raise Undecided('search loop result')
                    ch.append((n, v))
                outs.append(('break', repr(ch), ch))
        if len({o[:2] for o in outs}) != 1:
            raise Undecided('search loop with several outcomes')
        known = list(self.pc) + list(itn[3])
        cond = c_or(*[c_and(*[c for c in g if not valid(known, c)]) for _, g, _, _, _ in hits])
        if not self.branch(c_lt(lo, hi + 1)):
            return True
        if self.branch(c_exists(b, lo, hi + 1, cond)):
            kind, _, v = outs[0]
            if kind == 'return':
                raise Returned(v)
            for n in tgt + local:
                env[n] = Poison(n)
            for n, x in v:
                env[n] = x
            if hits[0][3].bags:         # a list of tuples edited at the element found
                sk = symbase(fresh('found'), True)
                mp = {b: E.base(sk)}
                found = [c.subst(mp) for c in itn[3]] + [c.subst(mp) for c in hits[0][1]]
                self.fact(*found)
                known = solved_for(found, sk)
                for o, (head, edits, n, den, asm) in hits[0][3].after:
                    o.own(self)
                    o.head = tuple(subst_value(x, mp) for x in head)
                    o.edits = tuple((op, p.subst(mp), subst_value(x, mp)) for op, p, x in edits)
                    o.n, o.den = n.subst(mp), den.subst(mp).subst(known)
                    new = tuple(c.subst(mp) for c in asm)
                    o.asm = o.asm + new
                    self.fact(*new)
            self.loop_broke = True
        else:
            for n in tgt + local:
                env[n] = Poison(n)
        return True

    def search_value(self, itn, hits, b, lo, hi, names, env):
        """return inside the loop with a value that depends on the element found"""
        known = list(self.pc) + list(itn[3])
        if not self.branch(c_lt(lo, hi + 1)):
            return True
        cond = c_or(*[c_and(*[c for c in g if not valid(known, c)]) for _, g, _, _, _ in hits])
        if self.branch(c_exists(b, lo, hi + 1, cond)):
            sk = symbase(fresh('found'), True)
            mp = {b: E.base(sk)}
            self.pc.extend(c.subst(mp) for c in itn[3])
            for n, (_, g, e, fr, st) in enumerate(hits):
                gc = c_and(*[c.subst(mp) for c in g])
                if n == len(hits) - 1:
                    self.pc.append(gc)
                elif not self.branch(gc):
                    continue
                raise Returned(subst_value(fr.ret, mp))
        for n in names:
            env[n] = Poison(n)
        return True

    def bind(self, itn, guard, f, presym, prenames):
        kind, pb, ib, dom, w, val, act = itn
        out = []
        for t in f.ts:
            co = t.coef
            if presym & co.bases() or any(presym & d.bases() for d in t.dom) or presym & val_bases(t.key):
                raise Undecided('effect depends on an accumulator')
            if any(a.name in prenames for a, _ in t.pb):
                raise Undecided('effect depends on an accumulated polynomial')
            gs = tuple(guard)
            if w is not None and w[0] in self.exact_w:
                mp = {w[0]: self.exact_w[w[0]]}
                gs = tuple(g.subst(mp) for g in gs)
                if any(w[0] in val_bases(a.args) for a, _ in t.pb):
                    raise Undecided('effect depends on the coefficient value')
                out.append(Term(pb + t.pb, ib + t.ib, tuple(dom) + gs + tuple(d.subst(mp) for d in t.dom), co.subst(mp), val_subst(t.key, mp)))
                continue
            if w is not None:
                wb, wc = w
                co2 = []
                gs = tuple(g for g in gs if not self.w_nonzero(g, wb))
                zero = any(g.op == 'eq0' and wb in g.bases() and g.a[0].lin(wb) and not g.a[0].lin(wb)[1].t for g in guard)
                if zero:
                    if co.subst({wb: ZERO}).t:
                        raise Undecided('effect for zero coefficients')
                    continue
                ar = co.lin(wb)
                if ar is None or ar[1].t:
                    raise Undecided('effect is not linear in the coefficient')
                if any(wb in g.bases() for g in gs) or any(wb in d.bases() for d in t.dom) or wb in val_bases(t.key):
                    raise Undecided('effect depends on the coefficient value')
                if any(wb in val_bases(a.args) for a, _ in t.pb):
                    raise Undecided('effect depends on the coefficient value')
                co = ar[0] * wc
            out.append(Term(pb + t.pb, ib + t.ib, tuple(dom) + gs + t.dom, co, t.key))
        return F(out).refresh()

    def w_nonzero(self, g, wb):
        return g.op == 'not' and g.a[0].op == 'eq0' and wb in g.bases() and g.a[0].a[0].lin(wb) is not None \
            and not g.a[0].a[0].lin(wb)[1].t

    def sum_var(self, n, p, its, total, presym, prenames):
        _, b, v0 = p
        deltas, factors, temp = [], [], True
        okadd = okmul = True
        anych = False
        for itn, guard, e, fr, status in total:
            if status != 'ok':
                continue
            v = e.get(n)
            if isinstance(v, E) and v == E.base(b):
                deltas.append((itn, guard, None))
                factors.append((itn, guard, ONE))
                temp = False
                continue
            anych = True
            if isinstance(v, E):
                if b in v.bases():
                    temp = False
                d = v - E.base(b)
                if presym & d.bases():
                    okadd = False
                else:
                    deltas.append((itn, guard, fscalar(d)))
                ar = v.lin(b)
                if ar is None or ar[1].t or presym & ar[0].bases():
                    okmul = False
                else:
                    factors.append((itn, guard, ar[0]))
            elif isinstance(v, NumF):
                okmul = False
                rest = []
                hit = 0
                for t in v.f.ts:
                    if not t.pb and not t.ib and not t.dom and t.coef == E.base(b):
                        hit += 1
                    elif presym & t.coef.bases():
                        okadd = False
                    else:
                        rest.append(t)
                if hit:
                    temp = False
                if hit != 1:
                    okadd = False
                else:
                    deltas.append((itn, guard, F(rest)))
            else:
                okadd = okmul = False
                if isinstance(v, Poison):
                    temp = False
        if not anych:
            return v0
        if okadd and not temp:
            f = FZERO
            for itn, guard, d in deltas:
                if d is not None:
                    f = f + self.bind(itn, guard, d, presym, prenames)
            return self.num_add(v0, norm_num(f))
        if okmul and not temp:
            r = v0
            fs = [(i, g, x) for i, g, x in factors]
            return self.num_mul(r, self.product(fs, its))
        return Poison(n)

    def product(self, fs, its):
        if len(its) != 1:
            raise Undecided('product over a polynomial')
        kind, pb, ib, dom, w, val, act = its[0]
        if len(fs) != 1 or fs[0][1]:
            raise Undecided('conditional product')
        x = fs[0][2]
        if kind == 'seq':
            b, seq = val_bases(val), act[1]
            names = sorted(b, key=lambda q: q.key)
            mp = {q: Sym(f'#{j}') for j, q in enumerate(names)}
            return FnE('PROD', seq, x.subst(mp))
        if kind != 'range':
            raise Undecided('product over a polynomial')
        b = ib[0]
        return prod_range(x, b, its[0], self)

    def sum_poly(self, n, p, its, total, presym, prenames):
        _, name, v0, shape = p
        f = FZERO
        anych = False
        kf = v0.keyfor
        for itn, guard, e, fr, status in total:
            if status != 'ok':
                continue
            v = e.get(n)
            if isinstance(v, Poison) or not isinstance(v, PolyV):
                return Poison(n)
            hit, rest = [], []
            for t in v.f.ts:
                if any(a.name == name for a, _ in t.pb):
                    hit.append(t)
                else:
                    rest.append(t)
            if not hit:
                return Poison(n)         # rebound: iteration-local
            if v.keyfor != kf:
                kf = None
            if len(hit) == 1 and len(hit[0].pb) == 1 and not hit[0].ib and not hit[0].dom and hit[0].coef == ONE and \
                    hit[0].key == gen_key_from(hit[0].pb[0]):
                if rest:
                    anych = True
                    f = f + self.bind(itn, guard, F(rest), presym, prenames)
            elif not rest and len(hit) == 1 and not guard and len(its) == 1 and its[0][0] == 'range':
                # multiplicative: pre * phi
                return self.poly_power(name, v0, hit[0], its[0], presym, v)
            else:
                raise Undecided('polynomial accumulated in an unsupported way')
        r = PolyV(self.getf(v0) + f, kf, self.depth)
        if not anych:
            return v0
        return r

    def poly_power(self, name, v0, t, itn, presym, v):
        """pre := pre * Q in each iteration, Q independent of the iteration"""
        kind, pb, ib, dom, w, val, act = itn
        if t.ib or t.dom or t.coef != ONE or len(t.pb) not in (2, 3):
            raise Undecided('product of polynomials in a loop')
        if len(t.pb) == 3:
            raise Undecided('product of polynomials in a loop')
        i = 0 if t.pb[0][0].name == name else 1
        (pa, pbs), (qa, qbs) = t.pb[i], t.pb[1 - i]
        want = key_add(gen_key_from(t.pb[i]), gen_key_from(t.pb[1 - i]))
        if t.key != want or presym & val_bases(qa.args):
            raise Undecided('product of polynomials in a loop')
        b = ib[0]
        lo, hi = var_range(Term((), ib, tuple(strict_to_le(d) for d in dom), ONE, ()), b)
        cnt = hi - lo + 1
        if b in val_bases(qa.args):
            if not valid(self.pc, c_le(ZERO, cnt)):
                raise Undecided('product over a possibly inverted range')
            return PolyV(fmul(v0.f, prod_atom(cnt, qa.subst({b: E.base(IDX) + lo})), key_add), v.keyfor, self.depth)
        base = v0.f
        f0 = base.ts[0] if len(base.ts) == 1 else None
        if f0 is not None and len(f0.pb) == 1 and repr(f0.pb[0][0]) == repr(qa) and f0.coef == ONE and not f0.dom \
                and f0.key == gen_key_from(f0.pb[0]):
            return PolyV(poly_pow_atom(qa, cnt + 1), v.keyfor, self.depth)
        raise Undecided('product of polynomials in a loop')

    def loop_set(self, o, key, value, itn, guard, s):
        raise Undecided('item assignment in a symbolic loop')

    def loop_append(self, o, part, itn, guard):
        kind, pb, ib, dom, w, val, act = itn
        p2, i2, d2, v = part
        part = (tuple(pb) + tuple(p2), tuple(ib) + tuple(i2), tuple(dom) + tuple(guard) + tuple(d2), v)
        if w is not None and (w[0] in val_bases(v) or any(w[0] in d.bases() for d in part[2])):
            raise Undecided('append of a coefficient in a loop')
        if o.depth < self.depth:
            self.frames[-1].appends.append((o, part))
            return
        if isinstance(o, ListV):
            if o.depth < self.depth:
                raise Undecided(f'list modified inside a symbolic loop')
            o.__class__ = GenListV
            o.parts = [((), (), (), x) for x in o.items]
            del o.items
        if not isinstance(o, GenListV):
            raise Undecided('append in a symbolic loop')
        o.mutated = True
        o.parts.append(part)

    def frozen(self, v):
        """the value of an appended element, detached from later edits"""
        if isinstance(v, tuple):
            return type(v)(self.frozen(x) for x in v)
        if isinstance(v, ListV):
            return LTuple(self.frozen(x) for x in v.items)
        if isinstance(v, StackV):
            return v.seq()
        if isinstance(v, BagSeq):
            if v.mutable:
                raise Undecided('mutable element appended in a loop')
            return v.as_bag(self)
        if isinstance(v, (E, Bag, str)) or v is None or isinstance(v, bool):
            return v
        raise Undecided(f'append of {type(v).__name__} in a loop')

    # ------------------------------------------------------------ heap
    def read_obj(self, o):
        d = getattr(o, 'depth', 0)
        for i in range(d + 1, len(self.frames)):
            fr = self.frames[i]
            fr.reads[id(o)] = o
            if id(o) in fr.delta:
                raise Undecided('object read after modification inside a loop')

    def getf(self, p):
        self.read_obj(p)
        return p.f

    def poly_add(self, p, f, at=None):
        p.mutated = True
        p.nozero = False
        if at is None or not (self.active and repr(self.active[-1][1]) == repr(at)):
            p.memb = fresh('obj')
        if p.depth >= self.depth:
            p.f = p.f + f
        else:
            fr = self.frames[-1]
            if id(p) in fr.reads:
                raise Undecided('object modified after being read inside a loop')
            fr.delta.setdefault(id(p), [p, FZERO])
            fr.delta[id(p)][1] = fr.delta[id(p)][1] + f

    def mut_list(self, l):
        if l.depth < self.depth:
            fr = self.frames[-1]
            if fr.lists is None:
                raise Undecided(f'list modified inside a symbolic loop')
            fr.lists.setdefault(id(l), (l, list(l.items)))
            return
        l.mutated = True

    # ------------------------------------------------------------ numbers
    def num_add(self, a, b):
        if isinstance(a, E) and isinstance(b, E):
            return a + b
        return norm_num(self.numf(a) + self.numf(b))

    def num_neg(self, a):
        if isinstance(a, E):
            return -a
        return NumF(-a.f)

    def num_mul(self, a, b):
        if isinstance(a, E) and isinstance(b, E):
            return a * b
        if isinstance(a, E):
            return norm_num(self.numf(b).scale(a))
        if isinstance(b, E):
            return norm_num(self.numf(a).scale(b))
        return norm_num(fmul(a.f, b.f, lambda x, y: ()))

    def numf(self, a):
        if isinstance(a, NumF):
            return a.f
        if isinstance(a, (int, Fraction)):
            a = toE(a)
        if isinstance(a, E):
            return fscalar(a)
        raise Undecided(f'number expected, got {type(a).__name__}')

    def term_f(self, v, key):
        key = self.askey(key)
        if isinstance(v, E):
            return fmono(v, key)
        if isinstance(v, NumF):
            return F(Term(t.pb, t.ib, t.dom, t.coef, key) for t in v.f.ts)
        raise Undecided(f'coefficient of type {type(v).__name__}')

    def askey(self, key):
        if isinstance(key, tuple):
            if any(isinstance(x, BagSeq) for x in key):
                key = tuple(x.as_bag(self) if isinstance(x, BagSeq) else x for x in key)
            return key
        if isinstance(key, VecV):
            return key
        if isinstance(key, BagSeq):
            if not valid(self.pc, ge_(key.n, 1)):
                raise Undecided('possibly empty key')
            key.check_entries(self)
            return key.head + (key.den,)
        raise Undecided(f'polynomial key of type {type(key).__name__}')

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, env, mod):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.iter_concrete(v)
            if items is None or len(items) != len(t.elts):
                raise Undecided('unpacking')
            for x, y in zip(t.elts, items):
                self.assign(x, y, env, mod)
        elif isinstance(t, ast.Subscript):
            obj = self.ev(t.value, env, mod)
            idx = self.ev_index(t.slice, env, mod)
            self.setitem(obj, idx, v)
        elif isinstance(t, ast.Attribute):
            obj = self.ev(t.value, env, mod)
            if isinstance(obj, PolyV) and t.attr == 'keyfor':
                if obj.depth < self.depth:
                    raise Undecided('keyfor set inside a loop')
                obj.keyfor = v if isinstance(v, StrSeq) else tuple(self.iter_concrete(v))
                obj.mutated = True
                return
            raise Undecided('attribute assignment')
        else:
            raise Undecided('assignment target')

    def setitem(self, obj, idx, v):
        if isinstance(obj, PolyV):
            self.poly_set(obj, idx, v)
        elif isinstance(obj, ListV):
            self.mut_list(obj)
            i = self.index_of(idx, len(obj.items))
            obj.items[i] = v
        elif isinstance(obj, SeqListV):
            obj.set(self, idx, v)
        elif isinstance(obj, DictV):
            if obj.depth < self.depth:
                raise Undecided('dictionary modified in a symbolic loop')
            self.dict_set(obj, idx, v)
        elif isinstance(obj, TableV):
            from .tables import table_set
            table_set(self, obj, idx, v)
        elif isinstance(obj, (OpaqueArr, BagSeq, StackV)):
            obj.set(self, idx, v)
        else:
            raise Undecided(f'item assignment on {type(obj).__name__}')

    def dict_set(self, obj, idx, v):
        obj.mutated = True
        r = repr(idx)
        for k, (kk, _) in list(obj.d.items()):
            if k != r and not self.keys_differ(kk, idx):
                if self.keys_same(kk, idx):
                    r = k
                    break
                raise Undecided('dictionary with symbolic keys')
        obj.d[r] = (idx, v)

    def keys_differ(self, a, b):
        c = eq_val(a, b)
        if isinstance(c, bool):
            return not c
        return not feasible(self.pc + [c])

    def keys_same(self, a, b):
        c = eq_val(a, b)
        if isinstance(c, bool):
            return c
        return valid(self.pc, c)

    def poly_set(self, p, key, v):
        """p[key] = v: accepted when the key is provably absent, so that it adds v*X^key"""
        key = self.askey(key)
        c = Cond('atom', ('in', p.memb, key))
        if any(repr(x) == repr(c_not(c)) for x in self.pc):
            self.poly_add(p, self.term_f(v, key), at=key)
            return
        pend = [self.frames[i].delta[id(p)][1] for i in range(len(self.frames)) if id(p) in self.frames[i].delta]
        fs = [p.f] + pend
        for f in fs:
            for t in f.ts:
                if not isinstance(t.key, tuple) or len(t.key) != len(key):
                    if isinstance(t.key, tuple):
                        continue
                    raise Undecided('item assignment on a polynomial')
                t = t.refresh()
                e = eq_val(t.key, key)
                if e is True or (e is not False and feasible(self.pc + list(t.dom) + [e])):
                    raise Undecided('item assignment may overwrite')
        # distinctness across iterations of enclosing loops deeper than the owner
        if p.depth < self.depth:
            self.distinct_across(p, key)
        self.poly_add(p, self.term_f(v, key), at=key)

    def distinct_across(self, p, key):
        """key must take different values in different iterations: prove injectivity in loop binders of the pc"""
        bs = [b for b in val_bases(key) if '!' in b.key]
        # rename all loop variables occurring in the path condition to a second copy
        allb = set()
        for c in self.pc:
            allb |= c.bases()
        loopb = [b for b in allb | set(bs) if b.key.startswith('i!') or b.key.startswith('k!')]
        mp = {}
        for b in loopb:
            if b.kind == 's':
                mp[b] = E.base(symbase(b.key + "'", b.isint))
        k2 = val_subst(key, mp)
        e = eq_val(key, k2)
        if e is True or e is False:
            if e is True and loopb:
                raise Undecided('item assignment repeats a key')
            return
        diff = c_or(*[c_not(c_eq(E.base(b), v)) for b, v in mp.items()])
        pc2 = [c.subst(mp) for c in self.pc]
        if feasible(self.pc + pc2 + [e, diff]):
            raise Undecided('item assignment may repeat a key')

    def delitem(self, obj, idx):
        if isinstance(obj, TableV):
            from .tables import table_del
            table_del(self, obj, idx)
            return
        if isinstance(obj, DictV):
            if obj.depth < self.depth:
                raise Undecided('deletion in loop')
            for r, (k, _) in list(obj.d.items()):
                if self.keys_same(k, idx):
                    del obj.d[r]
                    obj.mutated = True
                    return
                if not self.keys_differ(k, idx):
                    raise Undecided('deletion with symbolic key')
            raise PyRaise('KeyError')
        if isinstance(obj, ListV):
            self.mut_list(obj)
            i = self.index_of(idx, len(obj.items))
            del obj.items[i]
            return
        if isinstance(obj, BagSeq):
            return obj.delete(self, idx)
        if isinstance(obj, PolyV):
            return self.poly_del(obj, idx)
        raise Undecided('del item')

    def poly_del(self, p, key):
        if isinstance(key, BagSeq):
            key = key.head + (key.den,)
        for a in reversed(self.active):
            if a[0] == p.ident and repr(a[1]) == repr(key):
                self.frames[-1].dels.append((p, E.base(a[2])))
                p.mutated = True
                return
        if p.depth < self.depth:
            raise Undecided('deletion from a polynomial')
        key = self.askey(key)
        if not self.branch(Cond('atom', ('in', p.memb, key))):
            raise PyRaise('KeyError')
        out = []
        for t in self.getf(p).ts:
            c = eq_val(t.key, key) if isinstance(t.key, tuple) and len(t.key) == len(key) else None
            if c is None:
                raise Undecided('deletion from a polynomial')
            if c is True:
                continue
            out.append(t if c is False else Term(t.pb, t.ib, t.dom + (c_not(c),), t.coef, t.key))
        p.f = F(out)
        p.mutated = True
        p.memb = fresh('obj')

    def some_value(self):
        if not self.opts.get('havoc'):
            raise Undecided('coefficient lookup')
        return Sym(fresh('some'), False)

    def poly_deletions(self, total):
        """deleting keys whose coefficient is zero does not change the value; all of them deleted -> no zero left"""
        polys = {id(d[0]): d[0] for _, _, _, fr, _ in total for d in fr.dels}
        if not polys:
            return
        for i, p in polys.items():
            if p.depth < self.depth:
                raise Undecided('deletion in a nested loop')
            if isinstance(self.iterated, PolyV) or (isinstance(self.iterated, ViewV)):
                raise Undecided('deletion while iterating')        # RuntimeError in Python
            allz = isinstance(self.iterated, PolyKeys) and self.iterated.poly is p and all(kz for _, _, kz in self.iterated.parts)
            for itn, guard, e, fr, status in total:
                w = itn[4][0]
                ds = [d for d in fr.dels if d[0] is p]
                if ds:
                    if not valid(self.pc + list(guard), c_eq(ds[0][1], ZERO)):
                        raise Undecided('deletion of a non-zero term')
                    if len(ds) > 1:
                        raise PyRaise('KeyError')
                elif not any(self.w_nonzero(c, w) for c in guard):
                    allz = False
            if allz:
                p.nozero = True

    def index_of(self, idx, n):
        if isinstance(idx, E) and idx.is_const():
            i = int(idx.cval())
            if -n <= i < n:
                return i % n if n else 0
            raise PyRaise('IndexError')
        if isinstance(idx, E):
            for i in range(n):
                if self.branch(c_eq(idx, E.const(i))):
                    return i
            for i in range(-n, 0):
                if self.branch(c_eq(idx, E.const(i))):
                    return i % n
            raise PyRaise('IndexError')
        raise Undecided('index')

    # ------------------------------------------------------------ expressions
    def ev(self, n, env, mod):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Undecided(f'expression {type(n).__name__} line {n.lineno}')
        return m(n, env, mod)

    def e_Constant(self, n, env, mod):
        v = n.value
        if isinstance(v, bool) or v is None or isinstance(v, str):
            return v
        if isinstance(v, (int, float)):
            try:
                return toE(v)
            except TypeError:
                raise Undecided('float literal')
        raise Undecided('constant')

    def e_JoinedStr(self, n, env, mod):
        parts = []
        for x in n.values:
            if isinstance(x, ast.Constant):
                parts.append(x.value)
            else:
                if x.format_spec is not None or x.conversion not in (-1, 115):
                    raise Undecided('format spec')
                parts.append(('fmt', self.ev(x.value, env, mod)))
        if all(isinstance(p, str) for p in parts):
            return ''.join(parts)
        return FmtV(parts)

    def e_Name(self, n, env, mod):
        if n.id in env:
            v = env[n.id]
            if isinstance(v, Poison):
                raise Undecided(f'value of {v.name} after/in a loop')
            return v
        v = mod.lookup(n.id)
        if isinstance(v, tuple) and v and v[0] == 'expr':
            return self.ev(v[1], {}, mod)
        if v is not None:
            return v
        if n.id in BUILTINS or n.id in EXC:
            return BuiltinV(n.id)
        raise Undecided(f'name {n.id}')

    def e_Tuple(self, n, env, mod):
        out = []
        for x in n.elts:
            if isinstance(x, ast.Starred):
                it = self.iter_concrete(self.ev(x.value, env, mod))
                if it is None:
                    raise Undecided('starred')
                out.extend(it)
            else:
                out.append(self.ev(x, env, mod))
        return tuple(out)

    def e_List(self, n, env, mod):
        return ListV(self.e_Tuple(n, env, mod), self.depth)

    def e_Set(self, n, env, mod):
        return self.e_Tuple(n, env, mod)

    def e_Dict(self, n, env, mod):
        d = DictV(self.depth)
        for k, v in zip(n.keys, n.values):
            if k is None:
                raise Undecided('dict unpacking')
            kk = self.ev(k, env, mod)
            d.d[repr(kk)] = (kk, self.ev(v, env, mod))
        return d

    def e_UnaryOp(self, n, env, mod):
        v = self.ev(n.operand, env, mod)
        if isinstance(n.op, ast.Not):
            if isinstance(v, Cond):
                return c_not(v)
            return not self.truth(v)
        if isinstance(n.op, ast.USub):
            if isinstance(v, PolyV):
                raise PyRaise('TypeError')
            return self.num_neg(v)
        if isinstance(n.op, ast.UAdd):
            return v
        raise Undecided('unary')

    def e_BoolOp(self, n, env, mod):
        isand = isinstance(n.op, ast.And)
        v = None
        for x in n.values:
            v = self.ev(x, env, mod)
            t = self.truth(v)
            if isand and not t:
                return v if not isinstance(v, Cond) else False
            if not isand and t:
                return v if not isinstance(v, Cond) else True
        return v if not isinstance(v, Cond) else (True if isand else False)

    def e_IfExp(self, n, env, mod):
        if self.truth(self.ev(n.test, env, mod)):
            return self.ev(n.body, env, mod)
        return self.ev(n.orelse, env, mod)

    def e_Compare(self, n, env, mod):
        left = self.ev(n.left, env, mod)
        res = None
        for op, r in zip(n.ops, n.comparators):
            right = self.ev(r, env, mod)
            c = self.compare(op, left, right)
            if len(n.ops) == 1:
                return c
            if not self.truth(c):
                return False
            left = right
        return True

    def compare(self, op, a, b):
        if isinstance(op, (ast.Eq, ast.NotEq)):
            c = eq_val(a, b)
            if isinstance(op, ast.NotEq):
                return (not c) if isinstance(c, bool) else c_not(c)
            return c
        if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
            if isinstance(a, E) and isinstance(b, E):
                return {ast.Lt: lambda: c_lt(a, b), ast.LtE: lambda: c_le(a, b),
                        ast.Gt: lambda: c_lt(b, a), ast.GtE: lambda: c_le(b, a)}[type(op)]()
            if isinstance(a, (int, float)) and isinstance(b, (int, float)):
                pass
            raise Undecided('ordering')
        if isinstance(op, (ast.Is, ast.IsNot)):
            if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
                r = a is b
            elif isinstance(a, (PolyV, ListV)) and isinstance(b, (PolyV, ListV)):
                r = a is b
            else:
                raise Undecided('is')
            return r if isinstance(op, ast.Is) else not r
        if isinstance(op, (ast.In, ast.NotIn)):
            c = self.contains(b, a)
            if isinstance(op, ast.NotIn):
                return (not c) if isinstance(c, bool) else c_not(c)
            return c
        raise Undecided('comparison')

    def contains(self, cont, x):
        if isinstance(cont, (tuple, ListV)):
            if isinstance(cont, ListV):
                self.read_obj(cont)
            cs = []
            for y in (cont if isinstance(cont, tuple) else cont.items):
                c = eq_val(x, y)
                if c is True:
                    return True
                if c is False:
                    continue
                cs.append(c)
            return c_or(*cs) if cs else False
        if isinstance(cont, RangeV) and cont.step == 1 and isinstance(x, E):
            return c_and(c_le(cont.lo, x), c_lt(x, cont.hi))
        if isinstance(cont, PolyV):
            if cont.depth < self.depth:
                pass
            for a in self.active:
                if a[0] == cont.ident and repr(a[1]) == repr(x):
                    return True
            return Cond('atom', ('in', cont.memb, x))
        if isinstance(cont, DictV):
            cs = []
            for k, _ in cont.d.values():
                c = eq_val(x, k)
                if c is True:
                    return True
                if c is not False:
                    cs.append(c)
            return c_or(*cs) if cs else False
        if isinstance(cont, TableV):
            return cont.region(x)
        if isinstance(cont, str) and isinstance(x, str):
            return x in cont
        if isinstance(cont, ViewV) and cont.kind == 'keys':
            return self.contains(cont.poly, x)
        raise Undecided(f'membership in {type(cont).__name__}')

    def e_BinOp(self, n, env, mod):
        a = self.ev(n.left, env, mod)
        b = self.ev(n.right, env, mod)
        return self.binop(n.op, a, b, n)

    def binop(self, op, a, b, node=None):
        if isinstance(a, bool):
            a = E.const(int(a))
        if isinstance(b, bool):
            b = E.const(int(b))
        num = (E, NumF)
        if isinstance(a, num) and isinstance(b, num):
            return self.numop(op, a, b)
        if isinstance(a, PolyV) or isinstance(b, PolyV):
            return self.polyop(op, a, b)
        if isinstance(op, ast.Add):
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            for x in (a, b):
                if isinstance(x, ListV):
                    self.read_obj(x)
            if isinstance(a, ListV) and isinstance(b, ListV):
                return ListV(a.items + b.items, self.depth)
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            if isinstance(a, (SeqV, tuple)) and isinstance(b, (SeqV, tuple)):
                return as_seq(a).concat(as_seq(b))
            if isinstance(a, (str, StrV, FmtV)) and isinstance(b, (str, StrV, FmtV)):
                return FmtV(fparts(a) + fparts(b))
            if isinstance(a, (tuple, ListV)) and isinstance(b, (tuple, ListV)):
                raise PyRaise('TypeError')
            if isinstance(a, OpaqueArr) and isinstance(b, OpaqueArr):
                return OpaqueArr()
        if isinstance(op, ast.Mult):
            if isinstance(a, tuple) and isinstance(b, E):
                if b.is_const():
                    return a * int(b.cval())
                if len(a) == 1:
                    return SeqV((('r', a[0], b),)) if self.nonneg(b) else self._undec('repeat')
            if isinstance(a, ListV) and isinstance(b, E):
                if b.is_const():
                    return ListV(a.items * int(b.cval()), self.depth)
            if isinstance(a, E) and isinstance(b, ListV) and a.is_const():
                return ListV(b.items * int(a.cval()), self.depth)
        raise Undecided(f'operator {type(op).__name__} on {type(a).__name__},{type(b).__name__}')

    def _undec(self, m):
        raise Undecided(m)

    def nonneg(self, e):
        return valid(self.pc, c_le(ZERO, e))

    def nonzero_or_raise(self, d):
        if d.is_const():
            if d.cval() == 0:
                raise PyRaise('ZeroDivisionError')
            return
        if all(not b.isint for b in d.bases()) or any(b.key in self.opts.get('positive', ()) for b in d.bases()):
            # model parameters: division by a parameter expression; admissibility is a stated assumption
            if not any(b.isint for b in d.bases()):
                self.assumed.add('denominators built from model parameters are non-zero')
                return
        if len(d.t) == 1:
            # a monomial vanishes only where one of its bases does
            (m, c), = d.t.items()
            cs = [c_eq(E.base(b), ZERO) for b, x in m if b.kind in ('s', 'a')
                  and not (isinstance(x, E) and valid(self.pc, c_eq(x, ZERO)))]
            cs += [c_eq(b.args[0], ZERO) for b, x in m if b.kind == 'u']
            d0 = c_or(*cs) if cs else FALSE
        else:
            d0 = c_eq(d, ZERO)
        if self.branch(d0):
            raise PyRaise('ZeroDivisionError')

    def numop(self, op, a, b):
        if isinstance(op, ast.Add):
            return self.num_add(a, b)
        if isinstance(op, ast.Sub):
            return self.num_add(a, self.num_neg(b))
        if isinstance(op, ast.Mult):
            return self.num_mul(a, b)
        if isinstance(b, NumF):
            raise Undecided('division/power with a sum')
        if isinstance(op, ast.Div):
            self.nonzero_or_raise(b)
            return self.num_mul(a, powE(b, E.const(-1)))
        if isinstance(op, ast.Pow):
            if isinstance(a, NumF):
                raise Undecided('power of a sum')
            return self.power(a, b)
        if isinstance(op, ast.Mod):
            if isinstance(a, E) and b.is_const() and b.cval() > 0:
                if a.is_const():
                    return E.const(a.cval() % b.cval())
                return ModE(a, b)
            raise Undecided('mod')
        if isinstance(op, ast.FloorDiv):
            if isinstance(a, E) and b.is_const() and b.cval() > 0:
                if a.is_const():
                    return E.const(a.cval() // b.cval())
                if valid(self.pc, c_eq(ModE(a, b), ZERO)):
                    return a / b
                return (a - ModE(a, b)) / b
            raise Undecided('floor division')
        raise Undecided(f'numeric operator {type(op).__name__}')

    def power(self, a, b):
        if a.is_const() and a.cval() == 0 and not b.is_const():
            if self.branch(c_eq(b, ZERO)):
                return ONE
            if valid(self.pc, c_lt(ZERO, b)):
                return ZERO
            raise Undecided('0**symbolic')
        if b.is_const() and b.cval() < 0:
            self.nonzero_or_raise(a)
        # a power whose base may vanish together with a non-positive exponent: python defines 0**0 = 1
        return powE(a, b)

    def polyop(self, op, a, b):
        if isinstance(a, PolyV) and isinstance(b, PolyV) and isinstance(op, (ast.Add, ast.Sub, ast.Mult)):
            name = {ast.Add: '__add__', ast.Sub: '__sub__', ast.Mult: '__mul__'}[type(op)]
            return self.poly_method(a, name, [b], {})
        if isinstance(op, ast.Mult) and isinstance(b, PolyV) and isinstance(a, (E, NumF)):
            return self.poly_method(b, '__rmul__', [a], {})
        if isinstance(op, ast.Pow) and isinstance(a, PolyV):
            return self.poly_method(a, '__pow__', [b], {})
        if isinstance(a, PolyV) and isinstance(op, (ast.Add, ast.Sub, ast.Mult)):
            raise PyRaise('NotImplementedError')
        raise Undecided('polynomial operator')

    def e_Subscript(self, n, env, mod):
        obj = self.ev(n.value, env, mod)
        idx = self.ev_index(n.slice, env, mod)
        return self.getitem(obj, idx)

    def ev_index(self, s, env, mod):
        if isinstance(s, ast.Slice):
            f = lambda x: None if x is None else self.ev(x, env, mod)
            return slice(f(s.lower), f(s.upper), f(s.step))
        return self.ev(s, env, mod)

    def slice_len(self, idx, n):
        """[: stop] with a symbolic non-negative stop, on n items"""
        sp = idx.stop
        if not isinstance(sp, E) or sp.is_const() or idx.step is not None or not valid(self.pc, c_le(ZERO, sp)):
            return idx
        for j in range(n):
            if self.branch(c_eq(sp, E.const(j))):
                return slice(idx.start, E.const(j), None)
        return slice(idx.start, None, None)

    def getitem(self, obj, idx):
        if isinstance(obj, (tuple, ListV)):
            items = obj if isinstance(obj, tuple) else obj.items
            if isinstance(obj, ListV):
                self.read_obj(obj)
            if isinstance(idx, slice):
                idx = self.slice_len(idx, len(items))

                def c(x):
                    if x is None:
                        return None
                    if isinstance(x, E) and x.is_const():
                        return int(x.cval())
                    raise Undecided('symbolic slice')
                r = items[slice(c(idx.start), c(idx.stop), c(idx.step))]
                return r if isinstance(obj, tuple) else ListV(r, self.depth)
            return items[self.index_of(idx, len(items))]
        if isinstance(obj, SeqV):
            return self.seq_get(obj, idx)
        if isinstance(obj, SeqListV):
            return self.seq_get(obj.seq, idx)
        if isinstance(obj, VecV):
            if isinstance(idx, E):
                return obj.at(idx)
            raise Undecided('slice of a symbolic tuple')
        if isinstance(obj, BagSeq):
            return obj.get(self, idx)
        if isinstance(obj, Bag):
            return BagSeq((), obj, 3, 0).get(self, idx)
        if isinstance(obj, PolyV):
            if isinstance(idx, BagSeq):
                idx = idx.head + (idx.den,)
            for a in reversed(self.active):
                if a[0] == obj.ident and repr(a[1]) == repr(idx):
                    if obj.depth < self.depth:
                        self.read_obj(obj)
                    return E.base(a[2])
            for a in reversed(self.active):
                q = a[3] if len(a) > 3 else None
                if isinstance(q, PolyV) and q.nozero is True and obj.nozero is True and repr(a[1]) == repr(idx):
                    if obj.depth < self.depth:
                        self.read_obj(obj)
                    sg = self.sign_of(obj.f, q.f)       # the same keys, equal or opposite coefficients
                    if sg:
                        return E.base(a[2]) * sg
            v = self.lookup(obj, idx)
            return self.some_value() if v is None else v
        if isinstance(obj, DictV):
            self.read_obj(obj)
            for k, v in obj.d.values():
                c = eq_val(k, idx)
                if c is True:
                    return v
                if c is False:
                    continue
                if self.branch(c):
                    return v
            raise PyRaise('KeyError')
        if isinstance(obj, TableV):
            reg = obj.region(idx)
            if not self.branch(reg):
                raise PyRaise('KeyError')
            return obj.value(self, idx)
        if isinstance(obj, SymListV):
            if isinstance(idx, E):
                i = idx
                if i.is_const() and i.cval() < 0:
                    i = obj.length + i
                if not self.branch(c_and(c_le(ZERO, i), c_lt(i, obj.length))):
                    raise PyRaise('IndexError')
                return obj.fn(self, i)
            if isinstance(idx, slice) and idx.step is None and (idx.start is None or is_zero(toE(idx.start))) and \
                    (idx.stop is None or isinstance(idx.stop, E) and valid(self.pc, c_eq(idx.stop, obj.length))):
                return SymListV(obj.length, obj.fn, self.depth)
            raise Undecided('slice of a symbolic list')
        if isinstance(obj, ParamV):
            return obj.get(idx)
        if isinstance(obj, (OpaqueSeq, StrSeq, StackV)):
            return obj.get(self, idx)
        raise Undecided(f'subscript on {type(obj).__name__}')

    def seq_get(self, s, idx):
        s = resolve_seq(s, lambda c: valid(self.pc, c))
        if isinstance(idx, E) and idx.is_const():
            i = int(idx.cval())
            if s.explicit():
                return s.p[self.index_of(idx, len(s.p))][1]
            if i == -1:
                return s.last()
            if i == 0 and s.p and s.p[0][0] == 'e':
                return s.p[0][1]
            if i == 0 and len(s.p) == 1 and s.p[0][0] == 'q' and s.p[0][2] == 'all' and \
                    valid(self.pc, c_eq(s.length(), ONE)):
                return s.last()
            raise Undecided('element of a symbolic sequence')
        if isinstance(idx, slice):
            st, sp = idx.start, idx.stop
            if st is None and isinstance(sp, E) and sp.is_const() and sp.cval() == -1:
                return s.init()
            if s.explicit() and all(x is None or isinstance(x, E) and x.is_const() for x in (st, sp)) and idx.step is None:
                return SeqV(s.p[slice(*[None if x is None else int(x.cval()) for x in (st, sp)])])
            if isinstance(st, E) and st.is_const() and st.cval() == 1 and sp is None and s.p and s.p[0][0] == 'e':
                return SeqV(s.p[1:])
            if st is None and sp is None:
                return s
        if isinstance(idx, E) and not s.explicit():
            n = s.length()
            inside = c_and(c_le(-n, idx), c_lt(idx, n))
            if not valid(self.pc, inside) and not self.branch(inside):
                raise PyRaise('IndexError')
            if not valid(self.pc, c_le(ZERO, idx)):
                raise Undecided('negative index')
            return FnE('elem', s, idx, isint=True)
        raise Undecided('slice of a symbolic sequence')

    def e_Attribute(self, n, env, mod):
        obj = self.ev(n.value, env, mod)
        a = n.attr
        if isinstance(obj, ModV):
            if obj.name.startswith('ajdmom'):
                v = Module.get(obj.name).lookup(a)
                if v is None:
                    return ModV(obj.name + '.' + a)
                return v
            if obj.name == 'math' and a in ('pi', 'e'):
                return Sym('math.' + a, False)
            return BuiltinV(obj.name + '.' + a)
        if isinstance(obj, BuiltinV):
            return BuiltinV(obj.name + '.' + a)
        if isinstance(obj, PolyV):
            if a == 'keyfor':
                if obj.keyfor is None:
                    raise Undecided('unknown keyfor')
                return obj.keyfor
            return BoundV(obj, a)
        if isinstance(obj, (ListV, DictV, TableV, str, StrV, SeqV, SeqListV, tuple, FmtV, FileV, WriterV, OpaqueArr, OpaqueRng, SymListV, ViewV, BagSeq, StackV)):
            return BoundV(obj, a)
        if isinstance(obj, E) and a in ('numerator', 'denominator'):
            return FnE(a, obj, isint=True)
        if isinstance(obj, ClassV) and obj.name == 'NonPoly':
            raise PyRaise('AttributeError')
        raise Undecided(f'attribute {a} of {type(obj).__name__}')

    def e_Lambda(self, n, env, mod):
        return LambdaV(n, dict(env), mod)

    def comp_iter(self, gens, env, mod, emit):
        if not gens:
            emit(env)
            return
        g = gens[0]
        it = self.ev(g.iter, env, mod)
        items = self.iter_concrete(it)
        if items is None:
            raise SymComp(it, g)
        for v in items:
            e = dict(env)
            self.assign(g.target, v, e, mod)
            if all(self.truth(self.ev(c, e, mod)) for c in g.ifs):
                self.comp_iter(gens[1:], e, mod, emit)

    def comp(self, n, env, mod, kind):
        out = []
        try:
            self.comp_iter(n.generators, dict(env), mod, lambda e: out.append(self.ev(n.elt, e, mod)))
        except SymComp as sc:
            return self.sym_comp(n, sc, env, mod, kind)
        return out

    def poly_filter(self, n, sc, env, mod):
        src = sc.it
        if isinstance(src, ViewV) and src.kind == 'keys':
            src = src.poly
        items = isinstance(src, ViewV) and src.kind == 'items'
        if items:
            src = src.poly
        if not isinstance(src, PolyV) or len(n.generators) != 1:
            return NotImplemented
        out = []
        for kind, pb, ib, dom, (w, coef), key, act in self.iterations(src):
            def thunk():
                e = dict(env)
                self.frames.append(Frame())
                self.active.append(act)
                try:
                    self.assign(sc.g.target, (key, E.base(w)) if items else key, e, mod)
                    for c in sc.g.ifs:
                        if not self.truth(self.ev(c, e, mod)):
                            return False
                    if repr(self.ev(n.elt, e, mod)) != repr(key):
                        raise Undecided('comprehension over a polynomial')
                    if self.frames[-1].delta:
                        raise Undecided('comprehension with effects')
                    return True
                finally:
                    self.frames.pop()
                    self.active.pop()
            saved = self.pc
            self.pc = list(self.pc) + list(dom) + inv_conds(pb)
            try:
                res = self.all_paths(thunk)
            finally:
                self.pc = saved
            rej = [g for g, r in res if not r]
            keepszero = all(any(self.w_nonzero(c, w) for c in g) for g in rej)
            for g, r in res:
                if r:
                    out.append((('poly', pb, ib, dom, (w, coef), key, act), g, keepszero))
        return PolyKeys(src, out)

    def sym_comp(self, n, sc, env, mod, kind):
        r = self.poly_filter(n, sc, env, mod)
        if r is not NotImplemented:
            return r
        from .tables import key_filter
        r = key_filter(self, n, sc, env, mod, kind)
        if r is not NotImplemented:
            return r
        hook = self.opts.get('comp')
        if hook:
            r = hook(self, n, sc, env, mod, kind)
            if r is not NotImplemented:
                return r
        it, g = sc.it, sc.g
        if len(n.generators) == 1 and isinstance(it, RangeV) and it.step == 1 and not g.ifs:
            cnt = it.hi - it.lo
            b = symbase(fresh('i'), True)
            e = dict(env)
            self.assign(g.target, E.base(b), e, mod)
            saved = self.pc
            self.pc = list(self.pc) + [c_le(it.lo, E.base(b)), c_lt(E.base(b), it.hi)]
            try:
                if not feasible(self.pc):
                    return SeqV(())

                def thunk():
                    try:
                        return self.ev(n.elt, e, mod)
                    except PyRaise as x:
                        return x
                res = self.all_paths(thunk)
                if any(not isinstance(v, E) for _, v in res):
                    self.pc = saved
                    return self.comp_loop(n, env, mod, kind)
                v = ZERO
                for g2, x in res:
                    v = v + (x * ind(c_and(*[c for c in g2 if not valid(self.pc, c)])) if len(res) > 1 else x)
            finally:
                self.pc = saved
            if b not in v.bases():
                if self.branch(c_le(ZERO, cnt)):
                    return SeqV((('r', v, cnt),))
                return SeqV(())
            return VecV(cnt, v.subst({b: E.base(IDX) + it.lo}))
        return self.comp_loop(n, env, mod, kind)

    def comp_loop(self, n, env, mod, kind):
        """a list comprehension as the loop that builds the list"""
        if kind != 'list':
            raise Undecided('symbolic comprehension')
        tmp = fresh('_L')
        body = ast.Expr(ast.Call(ast.Attribute(ast.Name(tmp, ast.Load()), 'append', ast.Load()), [n.elt], []))
        for g in reversed(n.generators):
            for c in reversed(g.ifs):
                body = ast.If(c, [body], [])
            body = ast.For(g.target, g.iter, [body], [])
        ast.fix_missing_locations(ast.copy_location(body, n))
        e = dict(env)
        r = e[tmp] = ListV([], self.depth)
        self.stmt(body, e, mod)
        return r

    def e_ListComp(self, n, env, mod):
        r = self.comp(n, env, mod, 'list')
        return ListV(r, self.depth) if isinstance(r, list) else r

    def e_GeneratorExp(self, n, env, mod):
        r = self.comp(n, env, mod, 'gen')
        return tuple(r) if isinstance(r, list) else r

    def e_SetComp(self, n, env, mod):
        raise Undecided('set comprehension')

    def e_DictComp(self, n, env, mod):
        d = DictV(self.depth)

        def emit(e):
            k = self.ev(n.key, e, mod)
            d.d[repr(k)] = (k, self.ev(n.value, e, mod))
        try:
            self.comp_iter(n.generators, dict(env), mod, emit)
        except SymComp:
            raise Undecided('symbolic dict comprehension')
        return d

    # ------------------------------------------------------------ calls
    def e_Call(self, n, env, mod):
        fn = self.ev(n.func, env, mod)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                it = self.iter_concrete(self.ev(a.value, env, mod))
                if it is None:
                    raise Undecided('starred call')
                args.extend(it)
            else:
                args.append(self.ev(a, env, mod))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                raise Undecided('**kwargs')
            kw[k.arg] = self.ev(k.value, env, mod)
        return self.apply(fn, args, kw)

    def apply(self, fn, args, kw):
        if isinstance(fn, FuncV):
            return self.call(fn, args, kw)
        if isinstance(fn, LambdaV):
            e = dict(fn.env)
            for p, v in zip(fn.node.args.args, args):
                e[p.arg] = v
            return self.ev(fn.node.body, e, fn.module)
        if isinstance(fn, ClassV):
            if fn.name == 'Poly':
                return self.new_poly(args)
            raise Undecided(f'class {fn.name}')
        if isinstance(fn, BuiltinV):
            return self.builtin(fn.name, args, kw)
        if isinstance(fn, BoundV):
            return self.method(fn.obj, fn.name, args, kw)
        raise Undecided(f'call of {type(fn).__name__}')

    def new_poly(self, args):
        if not args:
            p = PolyV(F(()), (), self.depth, nozero=True)
            p.pristine = p.f
            return p
        x = args[0]
        if isinstance(x, PolyV):
            p = PolyV(self.getf(x), (), self.depth)
            p.memb = x.memb
            p.nozero = x.nozero
            return p
        if isinstance(x, DictV):
            f = FZERO
            for k, v in x.d.values():
                f = f + self.term_f(v, k)
            return PolyV(f, (), self.depth)
        raise Undecided('Poly(...)')

    def builtin(self, name, args, kw):
        h = self.opts.get('builtins', {}).get(name)
        if h:
            return h(self, args, kw)
        if name == 'len':
            x = args[0]
            if isinstance(x, tuple):
                return E.const(len(x))
            if isinstance(x, ListV):
                self.read_obj(x)
                return E.const(len(x.items))
            if isinstance(x, (SeqV, StackV)):
                if isinstance(x, StackV):
                    self.read_obj(x)
                return x.length()
            if isinstance(x, SeqListV):
                return x.seq.length()
            if isinstance(x, VecV):
                return x.length
            if isinstance(x, str):
                return E.const(len(x))
            if isinstance(x, SymListV):
                return x.length
            if isinstance(x, DictV):
                return E.const(len(x.d))
            if isinstance(x, (OpaqueSeq, StrSeq)):
                return x.length
            if isinstance(x, BagSeq):
                return x.length()
            if isinstance(x, Bag):
                return blen(x)
            if isinstance(x, ViewV):
                x = x.poly
            if isinstance(x, PolyV) and getattr(x, 'nonempty', None) is not None and x.nonempty is x.f:
                n = Sym(fresh('some'), True)
                self.fact(c_le(ONE, n))
                return n
            if isinstance(x, PolyV) and x.nozero is True:
                f = self.getf(x)
                for g, n in self.lens:
                    if self.sign_of(f, g):              # no zero coefficients: the same keys
                        return n
                n = Sym(fresh('len'), True)
                self.fact(c_le(ZERO, n))
                self.lens.append((f, n))
                return n
            if isinstance(x, PolyV) and self.opts.get('havoc'):
                n = Sym(fresh('some'), True)
                self.pc.append(c_le(ZERO, n))
                return n
            raise Undecided(f'len of {type(x).__name__}')
        if name == 'range':
            a = [toE(x) if isinstance(x, (int, E)) else self._undec('range argument') for x in args]
            if len(a) == 1:
                return RangeV(ZERO, a[0], 1)
            if len(a) == 2:
                return RangeV(a[0], a[1], 1)
            if a[2].is_const() and a[2].cval() != 0:
                return RangeV(a[0], a[1], int(a[2].cval()))
            raise Undecided('range step')
        if name == 'tuple':
            if not args:
                return ()
            x = args[0]
            if isinstance(x, (tuple, SeqV, VecV, StrSeq)):
                return x
            if isinstance(x, ListV):
                self.read_obj(x)
                return tuple(x.items)
            if isinstance(x, SeqListV):
                return x.seq
            if isinstance(x, BagSeq):
                return x.copy(self, False)
            it = self.iter_concrete(x)
            if it is not None:
                return tuple(it)
            raise Undecided('tuple()')
        if name == 'list' and len(args) == 1 and isinstance(args[0], StackV):
            return args[0].call_copy(self, [], {})
        if name == 'list':
            if not args:
                return ListV([], self.depth)
            x = args[0]
            if isinstance(x, SeqV) and not x.explicit():
                return SeqListV(x, self.depth)
            if isinstance(x, Bag):
                x = BagSeq((), x, 3, self.depth)
            if isinstance(x, BagSeq):
                return x.copy(self, True)
            it = self.iter_concrete(x)
            if it is not None:
                return ListV(it, self.depth)
            raise Undecided(f'list({type(x).__name__})')
        if name in ('Fraction', 'fractions.Fraction'):
            if len(args) == 1:
                return args[0]
            self.nonzero_or_raise(args[1])
            return self.num_mul(args[0], powE(args[1], E.const(-1)))
        if name in ('math.comb',):
            return self.comb(args[0], args[1])
        if name == 'math.factorial':
            x = args[0]
            if not self.branch(c_le(ZERO, x)):
                raise PyRaise('ValueError')
            return FactE(x)
        if name == 'math.exp':
            return powE(Sym('e', False), args[0])
        if name == 'math.sqrt':
            self.check_sqrt(args[0])
            return powE(args[0], E.const(Fraction(1, 2)))
        if name in ('math.pow', 'pow'):
            return self.power(args[0], args[1])
        if name == 'sum' and isinstance(args[0], StackV):
            self.read_obj(args[0])
            return args[0].sum() + (args[1] if len(args) > 1 else ZERO)
        if name == 'sum':
            it = self.iter_concrete(args[0])
            if it is None:
                raise Undecided('sum')
            r = args[1] if len(args) > 1 else ZERO
            for x in it:
                r = self.binop(ast.Add(), r, x)
            return r
        if name == 'math.prod':
            it = self.iter_concrete(args[0])
            if it is None:
                raise Undecided('prod')
            r = ONE
            for x in it:
                r = self.binop(ast.Mult(), r, x)
            return r
        if name == 'isinstance':
            x, c = args
            cn = c.name if isinstance(c, (ClassV, BuiltinV)) else None
            if cn == 'Poly':
                return isinstance(x, PolyV)
            if cn == 'tuple':
                return isinstance(x, (tuple, SeqV, VecV))
            if cn == 'list':
                return isinstance(x, (ListV, SeqListV))
            if cn == 'int' and isinstance(x, E):
                return True
            raise Undecided('isinstance')
        if name == 'print':
            return None
        if name == 'enumerate':
            it = self.iter_concrete(args[0])
            if it is None:
                raise Undecided('enumerate')
            st = args[1] if len(args) > 1 else kw.get('start', ZERO)
            return tuple((st + E.const(i), x) for i, x in enumerate(it))
        if name == 'zip':
            its = [self.iter_concrete(x) for x in args]
            if any(i is None for i in its):
                raise Undecided('zip')
            return tuple(zip(*its))
        if name == 'reversed':
            it = args[0]
            c = self.iter_concrete(it)
            if c is not None:
                return tuple(reversed(c))
            if isinstance(it, RangeV) and abs(it.step) == 1:
                return RangeV(it.hi - it.step, it.lo - it.step, -it.step)
            raise Undecided('reversed')
        if name == 'sorted':
            it = self.iter_concrete(args[0])
            if it is not None and all(isinstance(x, E) and x.is_const() for x in it) and not kw:
                return ListV(sorted(it, key=lambda x: x.cval()), self.depth)
            raise Undecided('sorted')
        if name in ('max', 'min'):
            xs = args if len(args) > 1 else self.iter_concrete(args[0])
            if xs and all(isinstance(x, E) for x in xs):
                r = xs[0]
                for x in xs[1:]:
                    if name == 'max':
                        r = x if self.branch(c_lt(r, x)) else r
                    else:
                        r = x if self.branch(c_lt(x, r)) else r
                return r
            raise Undecided(name)
        if name == 'abs':
            return args[0] if self.branch(c_le(ZERO, args[0])) else -args[0]
        if name == 'int' and isinstance(args[0], E):
            x = args[0]
            if all(b.isint for b in x.bases()) and all(c.denominator == 1 for c in x.t.values()):
                return x
        if name == 'dict' and not args:
            d = DictV(self.depth)
            return d
        if name in ('all', 'any'):
            it = self.iter_concrete(args[0])
            if it is not None:
                for x in it:
                    t = self.truth(x)
                    if name == 'all' and not t:
                        return False
                    if name == 'any' and t:
                        return True
                return name == 'all'
        if name == 'str' and len(args) == 1:
            return args[0] if isinstance(args[0], (str, StrV)) else FmtV([('fmt', args[0])])
        raise Undecided(f'builtin {name}')

    def check_sqrt(self, x):
        h = self.opts.get('sqrt')
        if h:
            h(self, x)

    def comb(self, n, k):
        n, k = toE(n), toE(k)
        if self.branch(c_lt(n, ZERO)) or self.branch(c_lt(k, ZERO)):
            raise PyRaise('ValueError')
        if self.branch(c_lt(n, k)):
            return ZERO
        return FactE(n) / FactE(k) / FactE(n - k)

    # ------------------------------------------------------------ methods
    def method(self, obj, name, args, kw):
        if isinstance(obj, GenListV) and name == 'append':
            if obj.depth < self.depth:
                self.frames[-1].appends.append((obj, ((), (), (), self.frozen(args[0]))))
            else:
                obj.parts.append(((), (), (), self.frozen(args[0])))
            obj.mutated = True
            return None
        if isinstance(obj, PolyV):
            return self.poly_method(obj, name, args, kw)
        if isinstance(obj, ListV):
            if name == 'append':
                if obj.depth < self.depth:
                    fr = self.frames[-1]
                    obj.mutated = True
                    if fr.lists is None:
                        fr.appends.append((obj, ((), (), (), self.frozen(args[0]))))
                        return None
                    fr.lists.setdefault(id(obj), (obj, list(obj.items)))
                    obj.items.append(self.frozen(args[0]))
                    return None
                self.mut_list(obj)
                obj.items.append(args[0])
                return None
            self.read_obj(obj)
            if name == 'extend':
                self.mut_list(obj)
                it = self.iter_concrete(args[0])
                if it is None:
                    raise Undecided('extend')
                obj.items.extend(it)
                return None
            if name == 'insert':
                self.mut_list(obj)
                obj.items.insert(int(args[0].cval()), args[1])
                return None
            if name == 'pop':
                self.mut_list(obj)
                i = self.index_of(args[0], len(obj.items)) if args else len(obj.items) - 1
                if not obj.items:
                    raise PyRaise('IndexError')
                return obj.items.pop(i)
            if name == 'copy':
                return ListV(obj.items, self.depth)
            if name == 'index':
                return self.index(obj.items, args[0])
        if isinstance(obj, tuple) and name == 'index':
            return self.index(obj, args[0])
        if isinstance(obj, SymListV) and name == 'append':
            from .tables import list_append
            list_append(self, obj, args[0])
            return None
        if isinstance(obj, (DictV, TableV)):
            if name in ('items', 'keys', 'values'):
                return ViewV(obj, name)
            if name == 'get' and isinstance(obj, DictV):
                try:
                    return self.getitem(obj, args[0])
                except PyRaise:
                    return args[1] if len(args) > 1 else None
            if name == 'copy' and isinstance(obj, DictV):
                d = DictV(self.depth)
                d.d = dict(obj.d)
                return d
        if isinstance(obj, str):
            if name in ('endswith', 'startswith') and isinstance(args[0], str):
                return getattr(obj, name)(args[0])
        if isinstance(obj, StrV) and name in ('endswith', 'startswith') and isinstance(args[0], str):
            return Cond('atom', (name, obj, args[0]))
        h = getattr(obj, 'call_' + name, None)
        if h:
            return h(self, args, kw)
        raise Undecided(f'method {name} of {type(obj).__name__}')

    def index(self, items, x):
        for i, y in enumerate(items):
            c = eq_val(x, y)
            if c is True or (c is not False and self.branch(c)):
                return E.const(i)
        raise PyRaise('ValueError')

    def same_kind(self, a, b):
        """outcome of Poly.is_exact_type (contract)"""
        if not isinstance(b, PolyV):
            return False
        if a.keyfor is None or b.keyfor is None:
            raise Undecided('unknown keyfor')
        if isinstance(a.keyfor, StrSeq) and isinstance(b.keyfor, StrSeq):
            c = strseq_eq(a.keyfor, b.keyfor)
        else:
            c = eq_val(tuple(a.keyfor), tuple(b.keyfor))
        return c if isinstance(c, bool) else self.branch(c)

    def poly_method(self, p, name, args, kw):
        q = f'ajdmom.poly.Poly.{name}'
        cls = Module.get('ajdmom.poly').classes.get('Poly')
        known = {'add_keyval', 'merge', 'remove_zero', 'set_keyfor', 'mul_poly', 'is_exact_type',
                 '__add__', '__sub__', '__mul__', '__rmul__', '__pow__'}
        if name in ('items', 'keys', 'values'):
            return ViewV(p, name)
        if name == 'copy':
            r = PolyV(self.getf(p), p.keyfor, self.depth)
            r.memb = p.memb
            r.nozero = p.nozero
            return r
        if name not in known:
            for n in (reversed(cls.body) if cls else []):
                if isinstance(n, ast.FunctionDef) and n.name == name:
                    return self.run_function(FuncV(Module.get('ajdmom.poly'), n, 'Poly.' + name), [p] + list(args), kw)
            raise Undecided(f'method {name} of Poly')
        self.used_contracts.add(q)
        self.flat.add(q)
        if name == 'add_keyval':
            key, val = self.bind2(args, kw, ('key', 'val'))
            self.poly_add(p, self.term_f(val, key), at=key)
            return None
        if name == 'set_keyfor':
            if p.depth < self.depth:
                raise Undecided('keyfor set inside a loop')
            names = self.iter_concrete(args[0]) if not isinstance(args[0], StrSeq) else args[0]
            if names is None:
                raise Undecided('set_keyfor')
            p.keyfor = names if isinstance(names, StrSeq) else tuple(names)
            p.mutated = True
            return None
        if name == 'remove_zero':
            if not p.nozero:
                p.mutated = True            # terms with coefficient zero, if there are any, are lost
            if p.depth >= self.depth:
                p.nozero = True
            return None
        if name == 'is_exact_type':
            return self.same_kind(p, args[0])
        if name in ('merge', '__add__', '__sub__', '__mul__'):
            o = args[0]
            if not self.same_kind(p, o):
                raise PyRaise('NotImplementedError')
            if name == 'merge':
                f = self.getf(o)
                self.poly_add(p, f)
                if p.depth >= self.depth:
                    p.nozero = True
                return None
            a, b = self.getf(p), self.getf(o)
            if name == '__add__':
                r = a + b
            elif name == '__sub__':
                r = a - b
            else:
                r = fmul(a, b, key_add)
            return PolyV(r, p.keyfor, self.depth, nozero=True)
        if name == '__rmul__':
            c = args[0]
            f = self.getf(p)
            if isinstance(c, E):
                r = f.scale(c)
            elif isinstance(c, NumF):
                r = fmul(c.f, f, lambda x, y: y)
            else:
                raise Undecided('scalar multiple')
            return PolyV(r, p.keyfor, self.depth, nozero=True)
        if name == '__pow__':
            n = args[0]
            if not isinstance(n, E):
                raise Undecided('power')
            if self.branch(c_le(n, ZERO)):
                raise PyRaise('NotImplementedError')
            f = self.getf(p)
            return PolyV(self.fpow(f, n), p.keyfor, self.depth)
        if name == 'mul_poly':
            return self.c_mul_poly(p, *args, **kw)
        raise Undecided(name)

    def bind2(self, args, kw, names):
        d = dict(zip(names, args))
        d.update(kw)
        return tuple(d[n] for n in names)

    def fpow(self, f, n):
        if n.is_const() and n.cval() <= 6:
            r = f
            for _ in range(int(n.cval()) - 1):
                r = fmul(r, f, key_add)
            return r
        if len(f.ts) == 1:
            t = f.ts[0]
            if not t.ib and not t.dom and len(t.pb) == 1 and t.coef == ONE and t.key == gen_key_from(t.pb[0]):
                return poly_pow_atom(t.pb[0][0], n)
            if not t.ib and not t.dom and not t.pb:
                return fmono(powE(t.coef, n), tuple(k * n for k in t.key))
        if not f.bases() and f.ts:
            # a closed polynomial: its power is an opaque atom named by its denotation
            return fatom('pow', (repr(F(sorted(f.ts, key=repr))), n), tuple('i' for _ in f.ts[0].key))
        raise Undecided('symbolic power of a polynomial')

    def c_mul_poly(self, p, other, keyIndexes, keyfor):
        if not isinstance(other, PolyV):
            raise PyRaise('TypeError')
        idx = self.iter_concrete(keyIndexes)
        i1, i2 = [self.iter_concrete(x) for x in idx]
        kf = tuple(self.iter_concrete(keyfor))

        def pos(lst):
            out = []
            for x in lst:
                if not (isinstance(x, E) and x.is_const()):
                    raise Undecided('mul_poly positions')
                out.append(int(x.cval()))
            return out
        i1, i2 = pos(i1), pos(i2)
        if len(i2) < len(i1):
            raise PyRaise('IndexError')

        def kop(a, b):
            out = []
            for x, y in zip(i1, i2):
                u = a[x] if 0 <= x < len(a) else ZERO
                v = b[y] if 0 <= y < len(b) else ZERO
                out.append(comp_add(u, v))
            return tuple(out)
        return PolyV(fmul(self.getf(p), self.getf(other), kop), kf, self.depth, nozero=True)


class PolyKeys:
    """list of the keys of a polynomial that satisfy a condition"""
    depth = 0

    def __init__(self, poly, parts):
        self.poly, self.parts = poly, parts


class SymComp(Exception):
    def __init__(self, it, g):
        self.it, self.g = it, g


class FmtV:
    def __init__(self, parts):
        self.parts = parts

    def __repr__(self):
        return 'fmt' + repr(self.parts)


def fparts(x):
    return [x] if isinstance(x, str) else [('fmt', x)] if isinstance(x, StrV) else list(x.parts)


class SeqListV:
    """list copy of a symbolic sequence"""
    def __init__(self, seq, depth):
        self.seq, self.depth = seq, depth

    def set(self, it, idx, v):
        if self.depth < it.depth:
            raise Undecided('list modified in a loop')
        if isinstance(idx, E) and idx.is_const() and idx.cval() == -1:
            self.seq = self.seq.init().concat(SeqV((('e', v),)))
            return
        raise Undecided('assignment to a symbolic list')

    def call_append(self, it, args, kw):
        self.seq = self.seq.concat(SeqV((('e', args[0]),)))


def immutable(v):
    if isinstance(v, tuple):
        return all(immutable(x) for x in v)
    return v is None or isinstance(v, (bool, str, E, SeqV, Bag, VecV)) or isinstance(v, BagSeq) and not v.mutable


def subst_value(v, mp):
    if isinstance(v, tuple):
        return tuple(subst_value(x, mp) for x in v)
    if isinstance(v, BagSeq):
        r = BagSeq([subst_value(x, mp) for x in v.head], v.bag.subst(mp), v.w, v.depth,
                   [(o, p.subst(mp), subst_value(x, mp)) for o, p, x in v.edits], v.n.subst(mp), v.den.subst(mp))
        return r
    return v.subst(mp) if hasattr(v, 'subst') else v


class BagSeq:
    """tuple (or list) of pairs / triples known through its denotation (a Bag) and the edits made to it.
    head: leading plain entries (flat keys)"""
    def __init__(self, head, bag, width, depth, edits=(), length=None, den=None, mutable=False):
        self.head, self.bag, self.w, self.depth, self.edits = tuple(head), bag, width, depth, tuple(edits)
        self.n = blen(bag) if length is None else length
        self.den = bag if den is None else den
        self.mutable, self.call, self.asm = mutable, None, ()

    def __repr__(self):
        return f'bagseq{self.head!r}{self.bag!r}{self.edits!r}'

    def copy(self, it, mutable):
        r = BagSeq(self.head, self.bag, self.w, it.depth, self.edits, self.n, self.den, mutable)
        r.call, r.asm = it.callid, self.asm
        return r

    def call_insert(self, it, args, kw):
        self.insert(it, args[0], args[1])

    def call_append(self, it, args, kw):
        self.insert(it, self.length(), args[0])

    def call_copy(self, it, args, kw):
        return self.copy(it, self.mutable)

    def length(self):
        return self.n + len(self.head)

    def triple(self, v):
        it = tuple(v.items) if isinstance(v, ListV) else v
        if not isinstance(it, tuple) or len(it) != self.w or not all(isinstance(x, E) for x in it):
            raise Undecided('entry of a tuple of tuples')
        return Bag((), (it if self.w == 3 else (it[0], ZERO, it[1]) if self.w == 2 else (it[:3], ZERO, it[3]),))

    def place(self, it, idx):
        """position of an element: ('h', i) or ('b', i)"""
        if not isinstance(idx, E):
            raise Undecided('slice of a tuple of tuples')
        h = len(self.head)
        if idx.is_const() and idx.cval() < 0:
            idx = self.length() + idx
        if idx.is_const() and idx.cval() < h:
            if idx.cval() < 0:
                raise PyRaise('IndexError')
            return 'h', int(idx.cval())
        if not valid(it.pc, ge_(idx, h)):
            raise Undecided('position in a tuple of tuples')
        i = idx - h
        if not it.branch(c_lt(i, self.n)):
            raise PyRaise('IndexError')
        return 'b', i

    def get(self, it, idx):
        k, i = self.place(it, idx)
        return self.head[i] if k == 'h' else self.read(it, i)

    def read(self, it, i):
        for op, p, v in reversed(self.edits):
            if op == 'del':
                if it.branch(c_le(p, i)):
                    i = i + 1
                continue
            if it.branch(c_eq(i, p)):
                return v
            if op == 'ins' and it.branch(c_lt(p, i)):
                i = i - 1
        t = tuple(bat(self.bag, i, c) for c in range(3))
        if self.w == 3:
            return t
        if self.w == 4:             # every entry of a flat key is (n1, n2, n3, m): a non-zero label, m >= 1
            l = tuple(bat(self.bag, i, c) for c in (3, 4, 5))
            self.asm = self.asm + tuple(ge_(x, 0) for x in l) + (ge_(l[0] + l[1] + l[2], 1), ge_(t[2], 1))
            it.fact(*self.asm[-5:])
            return l + (t[2],)
        self.asm = self.asm + (ge_(t[0], 1), ge_(t[2], 1))
        it.fact(*self.asm[-2:])      # every entry of a flat key is (n, m) with n, m >= 1
        return t[0], t[2]

    def check_entries(self, it):
        for n, (op, p, v) in enumerate(self.edits):
            if op == 'del' or self.w == 3:
                continue
            dead = False
            for o2, p2, _ in self.edits[n + 1:]:
                if o2 != 'ins' and valid(it.pc, c_eq(p2, p)):
                    dead = True
                    break
                if o2 == 'set' or valid(it.pc, c_lt(p, p2)):
                    continue
                if not valid(it.pc, c_le(p2, p)):
                    break           # position unknown from here on: the entry is checked although it may be replaced later
                p = p + 1 if o2 == 'ins' else p - 1
            ok = c_and(ge_(v[0], 1), ge_(v[1], 1)) if self.w == 2 else c_and(*[ge_(x, 0) for x in v[:3]], ge_(v[0] + v[1] + v[2], 1), ge_(v[3], 1))
            if not dead and not valid(it.pc + list(self.asm), ok):
                raise Undecided('entry of a flat key may be zero')

    def own(self, it):
        if not self.mutable:
            raise PyRaise('TypeError')
        if self.depth < it.depth:
            ov = it.frames[-1].bags
            if id(self) not in ov:
                ov[id(self)] = (self, (self.head, self.edits, self.n, self.den))

    def set(self, it, idx, v):
        k, i = self.place(it, idx)
        self.own(it)
        if k == 'h':
            self.head = self.head[:i] + (v,) + self.head[i + 1:]
            return
        self.den = self.den.mul(self.triple(v)).over(self.triple(self.read(it, i)))
        self.edits += (('set', i, v),)

    def insert(self, it, idx, v):
        h = len(self.head)
        if not valid(it.pc, c_and(ge_(idx, h), c_le(idx, self.length()))):
            raise Undecided('position of an insertion')
        self.own(it)
        self.den = self.den.mul(self.triple(v))
        self.edits += (('ins', idx - h, v),)
        self.n = self.n + 1

    def delete(self, it, idx):
        k, i = self.place(it, idx)
        if k == 'h':
            raise Undecided('deletion')
        old = self.read(it, i)
        self.own(it)
        self.den = self.den.over(self.triple(old))
        self.edits += (('del', i, None),)
        self.n = self.n - 1

    def as_bag(self, it):
        """the value as a key component: never empty"""
        if self.head or not valid(it.pc, ge_(self.n, 1)):
            raise Undecided('possibly empty tuple of tuples')
        return self.den


def solved_for(conds, sk):
    """{entry of a tuple of tuples at position sk: its value} from the equations among conds"""
    out = {}
    for c in [d for c in conds for d in (c.a if c.op == 'and' else (c,))]:
        if c.op != 'eq0':
            continue
        e = c.a[0].subst(out)
        for b in e.bases():
            if b.kind == 'a' and b.args[-1][1] == 'bat' and sk in b.args[1].bases() and e.lin(b) and e.lin(b)[0].is_const():
                a, r = e.lin(b)
                v = r * E.const(-1 / a.cval())
                if sk not in v.bases():
                    out[b] = v
                    break
    return out


def ge_(a, b):
    return c_le(toE(b), toE(a))


def bag_same(it, a, b):
    if a == b:
        return True
    if sorted(x.key for x in a.at) != sorted(x.key for x in b.at):
        return False
    left = list(Bag((), a.over(Bag((), b.tr)).tr).tr)
    while left:
        n1, n2, i = left.pop(0)
        rest = []
        for m1, m2, j in left:
            if valid(it.pc, c_and(*[c_eq(x, y) for x, y in zip(n1, m1)]) if isinstance(n1, tuple) else c_and(c_eq(n1, m1), c_eq(n2, m2))):
                i = i + j
            else:
                rest.append((m1, m2, j))
        left = rest
        if not valid(it.pc, c_eq(i, ZERO)):
            return False
    return True


def key_value(key):
    """python-level value of a polynomial key"""
    if isinstance(key, tuple) and key and isinstance(key[-1], Bag) and (key[-1].at and all(b.kind == 'J' for b in key[-1].at)):
        return BagSeq(key[:-1], key[-1], 2, 0)
    if isinstance(key, tuple) and key and isinstance(key[-1], Bag) and (key[-1].at and all(b.kind == 'Q' for b in key[-1].at)):
        return BagSeq(key[:-1], key[-1], 4, 0)
    return key


class ParamV:
    """parameter dictionary par[...]"""
    def __init__(self, names, known):
        self.known = known
        self.mutated = False
        self.depth = 0

    def get(self, idx):
        if isinstance(idx, str) and idx in self.known:
            return self.known[idx]
        raise PyRaise('KeyError')


class OpaqueSeq:
    """opaque sequence of numbers with symbolic length"""
    def __init__(self, name, length, elem):
        self.name, self.length, self.elem = name, length, elem
        self.depth = 0
        self.mutated = False

    def get(self, it, idx):
        return self.elem(it, idx)

    def __repr__(self):
        return f'seq:{self.name}'


class StackV:
    """list of integers: an opaque prefix (base `head`, length L, sum S, first component) or nothing, then items"""
    def __init__(self, head, L, S, first, items, depth=0):
        self.head, self.L, self.S, self.first, self.items, self.depth = head, L, S, first, list(items), depth
        self.mutated = False
        self.later = None
        self.nonneg = False         # components of the prefix are not negative

    def fresh_copy(self, depth):
        r = StackV(self.head, self.L, self.S, self.first, self.items, depth)
        r.later, r.nonneg = self.later, self.nonneg
        return r

    def length(self):
        return self.L + len(self.items)

    def seq(self):
        return SeqV(((('q', self.head, 'all'),) if self.head is not None else ()) + tuple(('e', x) for x in self.items))

    def sum(self):
        r = self.S
        for x in self.items:
            r = r + x
        return r

    def __repr__(self):
        return f'stack{self.seq()!r}'

    def get(self, it, idx):
        it.read_obj(self)
        if isinstance(idx, E) and idx.is_const():
            i = int(idx.cval())
            if i < 0 and -i <= len(self.items):
                return self.items[i]
            if i >= 0 and self.head is None:
                if i >= len(self.items):
                    raise PyRaise('IndexError')
                return self.items[i]
            if i == 0:
                return self.first
            if self.head is None:
                raise PyRaise('IndexError')
            raise Undecided('component of the stack')
        if isinstance(idx, slice):
            raise Undecided('slice of the stack')
        inside = c_and(c_le(ZERO, idx), c_lt(idx, self.length()))
        if not valid(it.pc, inside):
            raise Undecided('index of the stack')
        return FnE('elem', self.seq(), idx, isint=True)

    def set(self, it, idx, v):
        it.mut_list(self)
        if isinstance(idx, E) and idx.is_const() and isinstance(v, E):
            i = int(idx.cval())
            if i < 0 and -i <= len(self.items):
                self.items[i] = v
                return
        raise Undecided('item assignment on the stack')

    def call_append(self, it, args, kw):
        it.mut_list(self)
        if not isinstance(args[0], E):
            raise Undecided('stack')
        self.items.append(args[0])

    def call_extend(self, it, args, kw):
        it.mut_list(self)
        xs = it.iter_concrete(args[0])
        if xs is None or not all(isinstance(x, E) for x in xs):
            raise Undecided('stack')
        self.items.extend(xs)

    def call_pop(self, it, args, kw):
        if args and not (isinstance(args[0], E) and args[0].is_const() and args[0].cval() == -1):
            raise Undecided('stack')
        it.read_obj(self)
        it.mut_list(self)
        if not self.items:
            if self.head is None:
                raise PyRaise('IndexError')
            raise Undecided('stack')
        return self.items.pop()

    def call_copy(self, it, args, kw):
        it.read_obj(self)
        return self.fresh_copy(it.depth)


class OpaqueArr:
    depth = 0

    def __init__(self, size=None):
        self.size = size
        self.stores = []

    def set(self, it, idx, v):
        self.stores.append((idx, v))


class OpaqueRng:
    depth = 0


class FileV:
    depth = 0

    def __init__(self, name, mode):
        self.name, self.mode = name, mode


class WriterV:
    depth = 0

    def __init__(self, f):
        self.f = f


def strict_to_le(c):
    if c.op == 'lt0':
        return Cond('le0', (c.a[0] + 1,))
    return c


def gen_key_from(pb):
    a, bs = pb
    if a.shape == ('V',):
        return vec_of(bs[0])
    out = []
    i = 0
    for s in a.shape:
        if isinstance(s, int):
            out.append(tuple(E.base(b) for b in bs[i:i + s]))
            i += s
        else:
            out.append(base_value(bs[i]))
            i += 1
    return tuple(out)


def prod_atom(cnt, a):
    """PRODUCT over # = 0..cnt-1 of the polynomial a(#)"""
    return fatom('prod', (cnt, a), a.shape)


def poly_pow_atom(a, n):
    return fatom('pow', (a, n), a.shape)


def shape_of(p):
    for t in p.f.ts:
        if isinstance(t.key, VecV):
            return ('V',)
        if not isinstance(t.key, tuple):
            return None
        sh = []
        for c in t.key:
            if isinstance(c, E):
                sh.append('i')
            elif isinstance(c, Bag):
                sh.append('T')
            elif isinstance(c, SeqV):
                sh.append('q')
            elif isinstance(c, tuple):
                sh.append(len(c))
            else:
                return None
        return tuple(sh)
    return ('V',) if isinstance(p.keyfor, StrSeq) else ('i',) * len(p.keyfor) if p.keyfor else None


def bval_inverse(g, t):
    """(k1, k2) such that g = (t0*k1 + t1*k2)^(-t2)"""
    a, b, c = t
    for m in g.t:
        for u, x in m:
            if u.kind == 'u':
                p = u.args[0]
                (ba,), (bb,) = [tuple(z.bases()) for z in (a, b)]
                la, lb = p.lin(ba), p.lin(bb)
                if la and lb and la[0].t and lb[0].t:
                    k1, k2 = la[0], lb[0]
                    if not any(z in k1.bases() | k2.bases() for z in (ba, bb)) and g == powE(a * k1 + b * k2, -c):
                        return k1, k2
    return None


def as_seq(x):
    if isinstance(x, SeqV):
        return x
    return SeqV(tuple(('e', e) for e in x))


def norm_num(f):
    if all(not t.pb and not t.ib and not t.dom for t in f.ts):
        r = ZERO
        for t in f.ts:
            r = r + t.coef
        return r
    return NumF(f)


def eq_val(a, b):
    """equality of two Python values: bool or Cond"""
    if isinstance(a, bool):
        a = E.const(int(a)) if isinstance(b, E) else a
    if isinstance(b, bool):
        b = E.const(int(b)) if isinstance(a, E) else b
    if isinstance(a, E) and isinstance(b, E):
        c = c_eq(a, b)
        return True if c.op == 'true' else False if c.op == 'false' else c
    if isinstance(a, ListV) and isinstance(b, ListV):
        return eq_val(tuple(a.items), tuple(b.items))
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        cs = []
        for x, y in zip(a, b):
            c = eq_val(x, y)
            if c is False:
                return False
            if c is not True:
                cs.append(c)
        return c_and(*cs) if cs else True
    if isinstance(a, (SeqV, tuple)) and isinstance(b, (SeqV, tuple)):
        sa, sb = as_seq(a), as_seq(b)
        if sa == sb:
            return True
        if not sb.p:
            c = c_eq(sa.length(), ZERO)
            return True if c.op == 'true' else False if c.op == 'false' else c
        if not sa.p:
            return eq_val(b, a)
        raise Undecided('comparison of symbolic sequences')
    if isinstance(a, StrSeq) and isinstance(b, StrSeq):
        return strseq_eq(a, b)
    if isinstance(a, StrAt) and isinstance(b, StrAt):
        if repr(a) == repr(b):
            return True
        x, y = sorted([a, b], key=repr)
        return Cond('atom', ('streq', x, y))
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, (str, StrV)) and isinstance(b, (str, StrV)):
        if isinstance(a, StrV) and isinstance(b, StrV) and a.name == b.name:
            return True
        x, y = sorted([repr(a), repr(b)])
        return Cond('atom', ('streq', x, y))
    if a is None or b is None:
        return a is b
    if isinstance(a, NumF) or isinstance(b, NumF):
        raise Undecided('comparison of sums')
    if isinstance(a, VecV) and isinstance(b, VecV):
        if a == b:
            return True
        raise Undecided('comparison of symbolic tuples')
    if type(a) is not type(b):
        kinds = (E, str, StrV, tuple, ListV, PolyV)
        if isinstance(a, kinds) and isinstance(b, kinds):
            return False
    raise Undecided(f'equality of {type(a).__name__} and {type(b).__name__}')


_AN = {}


def assigned_names(s):
    r = _AN.get(id(s))
    if r is not None and r[0] is s:
        return r[1]
    out = []

    def names(t):
        if isinstance(t, ast.Name):
            if t.id not in out:
                out.append(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                names(x)
    names(s.target) if isinstance(s, ast.For) else None
    for n in ast.walk(s):
        if isinstance(n, (ast.Assign,)):
            for t in n.targets:
                names(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            names(n.target)
        elif isinstance(n, ast.For):
            names(n.target)
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                names(t)
        elif isinstance(n, ast.NamedExpr):
            names(n.target)
        elif isinstance(n, ast.With):
            for i in n.items:
                if i.optional_vars is not None:
                    names(i.optional_vars)
    _AN[id(s)] = (s, out)
    return out


def prod_range(x, b, itn, it):
    """PRODUCT over the range of binder b of x"""
    kind, pb, ib, dom, w, val, act = itn
    lo, hi = var_range(Term((), ib, tuple(strict_to_le(d) for d in dom), ONE, ()), b)
    cnt = hi - lo + 1
    if b not in x.bases():
        if not valid(it.pc, c_le(ZERO, cnt)):
            raise Undecided('product over a possibly inverted range')
        return powE(x, cnt)
    if not valid(it.pc, c_le(lo, hi + 1)):
        raise Undecided('product over a possibly inverted range')
    if len(x.t) > 1:
        ar = x.lin(b)
        if ar and ar[0].is_const() and ar[0].cval() == 1:
            r = ar[1]
            if valid(it.pc, c_le(ONE, lo + r)):
                return FactE(hi + r) / FactE(lo + r - 1)
        if ar and ar[0].is_const() and ar[0].cval() == -1:
            r = ar[1]
            if valid(it.pc, c_le(ONE, r - hi)):
                return FactE(r - lo) / FactE(r - hi - 1)
        raise Undecided('product of sums')
    (m, c), = x.t.items()
    if any(b in bb.args_bases() for bb, e in m):
        return FnE('PRODR', lo, hi, x.subst({b: Sym('#0')}))
    r = powE(E.const(c), cnt)
    for bb, e in m:
        if bb is b:
            if not isinstance(e, Fraction) or e.denominator != 1:
                raise Undecided('product')
            if not valid(it.pc, c_le(ONE, lo)):
                raise Undecided('product over a range that may contain 0')
            r = r * powE(FactE(hi) / FactE(lo - 1), E.const(e))
        elif isinstance(e, Fraction) and b not in bb.args_bases():
            r = r * powE(E.base(bb), E.const(e) * cnt)
        else:
            ee = toE(e)
            ar = ee.lin(b)
            if ar is None or b in (val_bases(bb.args)):
                raise Undecided('product')
            a, q = ar
            # sum of exponents
            s = a * ((lo + hi) * cnt / 2) + q * cnt
            r = r * powE(E.base(bb), s)
    return r


def _args_bases(self):
    return val_bases(self.args)


Base.args_bases = _args_bases
