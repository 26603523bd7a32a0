"""Verification of the functions that write formulas to files or split them by the level of summation (C18, C19).

Symbolic execution of the real source over generic formulas: the variable list is  A + (index names) + B  with A and B lists
of any length, the keys have the matching shape with index tuples of any (per key) length, the formula has any number of
terms, the file name is any string (z3 strings).  The effect of a function is a trace of events (open, write, row, close, put,
set_keyfor, ...); a loop over the terms contributes one generic event list "for each term"; contracts speak about the trace.
"""
import ast, os, time
import z3
from .frame import frames
from .unit import Unit, Stats
from .hoare import Unsupported, Failed, Fun, Mod, SRC, untainted

KEY = z3.DeclareSort('Key')
I = z3.IntSort()
RL = 4_000_000
_n = [0]


def fresh(p='x'):
    _n[0] += 1
    return f'{p}!{_n[0]}'


def iv(x):
    return z3.IntVal(x) if isinstance(x, int) else x


def conc(x):
    """python int of a z3 numeral"""
    if isinstance(x, int):
        return x
    x = z3.simplify(x)
    return x.as_long() if z3.is_int_value(x) else x


# ------------------------------------------------------------------ values
class Txt:
    """a string: constants, unknown strings (z3) and renderings str(value)"""
    def __init__(self, ps):
        out = []
        for p in ps:
            if p[0] == 'c' and not p[1]:
                continue
            if p[0] == 'c' and out and out[-1][0] == 'c':
                out[-1] = ('c', out[-1][1] + p[1])
            else:
                out.append(p)
        self.ps = out

    def z(self):
        r = None
        for p in self.ps:
            if p[0] == 's':
                raise Unsupported('string operation on a rendered value')
            t = z3.StringVal(p[1]) if p[0] == 'c' else p[1]
            r = t if r is None else z3.Concat(r, t)
        return z3.StringVal('') if r is None else r

    def const(self):
        return ''.join(p[1] for p in self.ps) if all(p[0] == 'c' for p in self.ps) else None


class Tup:
    """sequence: segments ('el', value) or ('var', len, at, tag)"""
    def __init__(self, segs):
        self.segs = [s for s in segs if not (s[0] == 'var' and isinstance(conc(s[1]), int) and conc(s[1]) <= 0)]

    def elements(self):
        return [s[1] for s in self.segs] if all(s[0] == 'el' for s in self.segs) else None


class El:
    """an opaque element"""
    def __init__(self, tag, excl=()):
        self.tag, self.excl = tag, excl     # excl: constants it certainly differs from


class Coef:
    def __init__(self, kid):
        self.kid = kid


class Num:
    """an exact number: z3 real"""
    def __init__(self, z):
        self.z = z


RE = z3.RealSort()
COEF = z3.Function('coef', KEY, RE)
COMB = z3.Function('comb', I, I, RE)
POWC = z3.Function('powc', RE, I, RE)


def real(v):
    """z3 real of a numeric value (None: not numeric)"""
    if isinstance(v, bool):
        return None
    if isinstance(v, int):
        return z3.RealVal(v)
    if isinstance(v, z3.ArithRef):
        return z3.ToReal(v) if v.is_int() else v
    if isinstance(v, Coef):
        return COEF(v.kid)
    if isinstance(v, Num):
        return v.z
    return None


class Ref:
    """mutable object: heap id"""
    def __init__(self, kind, h):
        self.kind, self.h = kind, h


class PolyP:
    """a formula given by its representation: kf (Tup), name; keys by mkkey(kid)"""
    def __init__(self, name, kf, mkkey, facts):
        self.name, self.kf, self.mkkey, self.facts = name, kf, mkkey, facts


class Items:
    def __init__(self, p, what):
        self.p, self.what = p, what


class Dist:
    """the distinct values of f over the keys of p (f: kid -> z3 int), in order of appearance or sorted"""
    def __init__(self, p, kid, e, srt, name):
        self.p, self.kid, self.e, self.srt, self.name = p, kid, e, srt, name
        self.len = z3.Int('len_' + name)
        self.idx, self.at = z3.Function('idx_' + name, I, I), z3.Function('at_' + name, I, I)

    def f(self, k):
        return z3.substitute(self.e, (self.kid, k))


class Arr:
    """list of n new empty formulas"""
    def __init__(self, name, n):
        self.name, self.len = name, n


class ArrEl:
    def __init__(self, arr, i):
        self.arr, self.i = arr, i


class Bound:
    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class Range:
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi


class Rng2:
    """zip / enumerate of indexable sequences: generic element is the tuple of the i-th elements"""
    def __init__(self, n, at):
        self.n, self.at = n, at


class Dead:
    """a variable whose value the loop summary does not keep"""


class Scatter:
    def __init__(self, base, i, n, pcs, idx, val):
        self.base, self.i, self.n, self.pcs, self.idx, self.val = base, i, n, pcs, idx, val


class Raise(Exception):
    pass


class St:
    def __init__(self, env, pc, ev, every, keys, heap):
        self.env, self.pc, self.ev, self.every, self.keys, self.heap = env, pc, ev, every, keys, heap

    def copy(self):
        return St(dict(self.env), list(self.pc), list(self.ev), list(self.every), list(self.keys), dict(self.heap))


class Ctl(Exception):
    def __init__(self, kind, val=None):
        self.kind, self.val = kind, val


class Infeasible(Exception):
    pass


class Vf:
    def __init__(self, unit):
        self.unit = unit
        self.mods, self.count, self.used, self.inlined = {}, 0, set(), set()
        self.dec, self.pos = [], 0
        self.hooks = {}         # list tag -> fn(value) -> (condition: contained, position)
        self.depth = 0
        self.s = None

    # ------------------------------------------------ modules
    def module(self, mod):
        if mod not in self.mods:
            p = os.path.join(SRC, *mod.split('.')) + '.py'
            if not os.path.exists(p):
                raise Unsupported('no module ' + mod)
            g, cls = {}, {}
            for n in ast.parse(open(p).read()).body:
                if isinstance(n, ast.FunctionDef):
                    g[n.name] = Fun(f'{mod}.{n.name}', n, mod)
                elif isinstance(n, ast.ClassDef):
                    cls[n.name] = {x.name: Fun(f'{mod}.{n.name}.{x.name}', x, mod) for x in n.body if isinstance(x, ast.FunctionDef)}
                elif isinstance(n, ast.Import):
                    for a in n.names:
                        g[a.asname or a.name.split('.')[0]] = Mod(a.name if a.asname else a.name.split('.')[0])
                elif isinstance(n, ast.ImportFrom):
                    for a in n.names:
                        g[a.asname or a.name] = ('from', n.module or '', a.name)
                elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                    g[n.targets[0].id] = ('expr', n.value)
            self.mods[mod] = (g, cls)
        return self.mods[mod]

    def find(self, qual):
        mod, name = qual.rsplit('.', 1)
        if mod.split('.')[-1][:1].isupper():
            mod, c = mod.rsplit('.', 1)
            f = self.module(mod)[1].get(c, {}).get(name)
        else:
            f = self.module(mod)[0].get(name)
        untainted(mod, name, f)
        return f

    def glob(self, mod, name):
        g, cls = self.module(mod)
        if name in cls:
            return ('class', f'{mod}.{name}')
        if name not in g:
            if name in BUILTIN:
                return ('builtin', name)
            raise Unsupported('name ' + name)
        v = g[name]
        untainted(mod, name, v)
        if isinstance(v, tuple) and v[0] == 'from':
            if not v[1].startswith('ajdmom'):
                return ('ext', v[1] + '.' + v[2])
            return self.glob(v[1], v[2])
        if isinstance(v, tuple) and v[0] == 'expr':
            return self.ev(v[1], mod)
        return v

    # ------------------------------------------------ solver
    def holds(self, g):
        """is g true on the present path"""
        if isinstance(g, bool):
            return g
        return self.sat(z3.Not(g)) == z3.unsat

    def sat(self, *extra):
        s = z3.Solver()
        s.set('rlimit', RL)
        s.add(*self.s.pc)
        s.add(*[e for e in extra])
        t = time.time()
        r = s.check()
        Stats.queries += 1
        Stats.time += time.time() - t
        self.model = s.model() if r == z3.sat else None
        return r

    def need(self, g, what):
        self.count += 1
        if isinstance(g, bool):
            if not g:
                raise Failed(what)
            return
        r = self.sat(z3.Not(g))
        if r == z3.unsat:
            return
        if r == z3.sat:
            raise Failed(what, str(self.model)[:400])
        raise Unsupported('solver undecided: ' + what)

    # ------------------------------------------------ path exploration by replaying decisions
    def choose(self, opts):
        """opts: list of z3 conditions that cover all cases; returns the index of the chosen (feasible) one"""
        live = None
        if self.pos < len(self.dec):
            live, k = self.dec[self.pos]
        else:
            live = []
            for i, c in enumerate(opts):
                if c is True or (c is not False and self.sat(c) != z3.unsat):
                    live.append(i)
            if not live:
                raise Infeasible()
            k = 0
            self.dec.append([live, 0])
        self.pos += 1
        c = opts[live[k]]
        if c is not True:
            self.s.pc.append(c)
        return live[k]

    def branch(self, c):
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self.choose([c, z3.Not(c)]) == 0

    def explore(self, s0, fn):
        """all ends [(state, ctl kind, value)] of fn run from s0"""
        saved = (self.dec, self.pos, self.s)
        ends, dec = [], []
        base = _n[0]
        top = base
        try:
            while True:
                self.dec, self.pos, self.s = dec, 0, s0.copy()
                _n[0] = base            # the same fresh names on every replay
                try:
                    fn()
                    ends.append((self.s, 'next', None))
                except Ctl as c:
                    ends.append((self.s, c.kind, c.val))
                except Infeasible:
                    pass
                top = max(top, _n[0])
                dec = self.dec[:]
                while dec and dec[-1][1] + 1 >= len(dec[-1][0]):
                    dec.pop()
                if not dec:
                    break
                dec[-1] = [dec[-1][0], dec[-1][1] + 1]
                if len(ends) > 200:
                    raise Unsupported('too many paths')
        finally:
            self.dec, self.pos, self.s = saved
            _n[0] = top
        return ends

    # ------------------------------------------------ keys
    def newkey(self, p, kid=None):
        kid = kid if kid is not None else z3.Const(fresh('k'), KEY)
        s = self.s
        s.keys.append((p.name, kid))
        s.pc += p.facts(kid)
        for nm, k0, c in s.every:
            if nm == p.name:
                s.pc.append(z3.substitute(c, (k0, kid)))
        return kid

    def every(self, p, kid, c):
        """for every key of p: c (a formula in kid)"""
        s = self.s
        s.every.append((p.name, kid, c))
        for nm, k in s.keys:
            if nm == p.name:
                s.pc.append(z3.substitute(c, (kid, k)))

    # ------------------------------------------------ sequences
    def tup(self, v):
        if isinstance(v, Ref) and v.kind == 'list':
            v = self.s.heap[v.h]
        if isinstance(v, Range):
            return Tup([('var', self.rlen(v), lambda i, v=v: conc(iv(v.lo) + i), None)])
        if not isinstance(v, Tup):
            raise Unsupported('sequence expected')
        return v

    def rlen(self, r):
        lo, hi = r.lo, r.hi
        if isinstance(lo, int) and isinstance(hi, int):
            return max(0, hi - lo)
        d = z3.simplify(iv(hi) - iv(lo))
        if self.holds(d >= 0):
            return d
        if self.holds(d <= 0):
            return 0
        return z3.If(d > 0, d, z3.IntVal(0))

    def slen(self, t):
        n = 0
        for s in t.segs:
            n = n + (1 if s[0] == 'el' else s[1])
        return conc(n) if not isinstance(n, int) else n

    def cut(self, t, pos):
        """(left, right) at position pos (python slice semantics)"""
        n = self.slen(t)
        if pos is None:
            raise Unsupported('cut')
        neg = (pos < 0) if isinstance(pos, int) else None
        if neg is None:
            if self.holds(pos >= 0):
                neg = False
            elif self.holds(pos < 0):
                neg = True
            else:
                neg = self.branch(pos < 0)
        if neg:
            pos = n + pos
            if not self.holds(iv(pos) >= 0):
                pos = pos if self.branch(iv(pos) >= 0) else 0
        acc = 0
        for i, s in enumerate(t.segs):
            if self.eqi(pos, acc):
                return Tup(t.segs[:i]), Tup(t.segs[i:])
            ln = 1 if s[0] == 'el' else s[1]
            if s[0] == 'var' and self.holds(z3.And(iv(pos) > acc, iv(pos) < acc + ln)):
                o = conc(iv(pos) - acc)
                return (Tup(t.segs[:i] + [('var', o, s[2], ('pre', s[3], 0))]),
                        Tup([('var', conc(ln - o), lambda j, o=o, at=s[2]: at(o + j), ('suf', s[3]))] + t.segs[i + 1:]))
            acc = acc + ln
        if self.holds(iv(pos) >= acc):
            return t, Tup([])
        # not decided: split
        acc, opts = 0, []
        for s in t.segs:
            opts.append(iv(pos) == acc)
            acc = acc + (1 if s[0] == 'el' else s[1])
        opts.append(iv(pos) >= acc)
        opts.append(z3.Not(z3.Or(*opts)))
        j = self.choose(opts)
        if j == len(opts) - 1:
            raise Unsupported('slice inside a list of unknown length')
        return Tup(t.segs[:j]), Tup(t.segs[j:])

    def eqi(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        d = z3.simplify(iv(a) == iv(b))
        if z3.is_true(d):
            return True
        if z3.is_false(d):
            return False
        return self.holds(d)

    def slice(self, t, lo, hi):
        if lo is None and hi is None:
            return t
        if hi is None:
            return self.cut(t, lo)[1]
        if lo is None or isinstance(lo, int) and lo == 0:
            return self.cut(t, hi)[0]
        n = self.slen(t)
        # normalise both to absolute positions, cut right first
        a = self.cut(t, hi)[0]
        if isinstance(lo, int) and lo < 0:
            lo = conc(n + lo)
        return self.cut(a, lo)[1]

    def index(self, t, i):
        n = self.slen(t)
        if isinstance(i, int) and i < 0:
            i = conc(n + i)
        elif not isinstance(i, int) and not self.holds(i >= 0):
            if self.branch(i < 0):
                i = conc(n + i)
        ok = z3.And(iv(i) >= 0, iv(i) < n) if not (isinstance(i, int) and isinstance(n, int)) else 0 <= i < n
        if not self.branch(ok):
            raise Ctl('raise', 'IndexError')
        acc, opts = 0, []
        for s in t.segs:
            ln = 1 if s[0] == 'el' else s[1]
            c = z3.simplify(z3.And(iv(i) >= acc, iv(i) < acc + ln))
            opts.append(True if z3.is_true(c) else False if z3.is_false(c) else c)
            acc = acc + ln
        if True in opts:
            j = opts.index(True)
        else:
            hit = [x for x, c in enumerate(opts) if c is not False and self.holds(c)]
            j = hit[0] if hit else self.choose(opts)
        s = t.segs[j]
        if s[0] == 'el':
            return s[1]
        off = iv(i)
        for x in t.segs[:j]:
            off = off - (1 if x[0] == 'el' else x[1])
        return s[2](z3.simplify(off))

    # ------------------------------------------------ equality of values (provable)
    def same(self, a, b):
        if isinstance(a, Ref) and a.kind == 'list':
            a = self.s.heap[a.h]
        if isinstance(b, Ref) and b.kind == 'list':
            b = self.s.heap[b.h]
        if isinstance(a, (int, z3.ArithRef)) and isinstance(b, (int, z3.ArithRef)) and not isinstance(a, bool):
            return self.eqi(a, b)
        if real(a) is not None and real(b) is not None:
            return isinstance(a, Coef) and isinstance(b, Coef) and a.kid.eq(b.kid) or self.holds(real(a) == real(b))
        if isinstance(a, Txt) and isinstance(b, Txt):
            if a.const() is not None and b.const() is not None:
                return a.const() == b.const()
            x, y = self.flat(a), self.flat(b)
            if len(x) == len(y) and all(self.samep(p, q) for p, q in zip(x, y)):
                return True
            try:
                return self.holds(a.z() == b.z())
            except Unsupported:
                return False
        if isinstance(a, Tup) and isinstance(b, Tup):
            return self.samet(a, b)
        if isinstance(a, El) and isinstance(b, El):
            return self.tageq(a.tag, b.tag)
        if isinstance(a, Coef) and isinstance(b, Coef):
            return a.kid.eq(b.kid)
        return a is b

    def tageq(self, s, t):
        if len(s) != len(t):
            return False
        for x, y in zip(s, t):
            if isinstance(x, str) or isinstance(y, str):
                if x is not y and not (isinstance(x, str) and isinstance(y, str) and x == y):
                    return False
            elif isinstance(x, tuple) and isinstance(y, tuple):
                if not self.tageq(x, y):
                    return False
            elif isinstance(x, (int, z3.ArithRef)) and isinstance(y, (int, z3.ArithRef)):
                if not self.eqi(x, y):
                    return False
            elif not (z3.is_expr(x) and z3.is_expr(y) and (x.eq(y) or (x.sort() == y.sort() and self.holds(x == y)))):
                return False
        return True

    def flat(self, t):
        """pieces with constant renderings resolved"""
        out = []
        for p in t.ps:
            if p[0] == 's':
                v = p[1]
                if isinstance(v, int):
                    p = ('c', str(v))
                elif isinstance(v, z3.ArithRef) and isinstance(conc(v), int):
                    p = ('c', str(conc(v)))
                elif isinstance(v, Txt):
                    out += self.flat(v)
                    continue
            out.append(p)
        return Txt(out).ps

    def samep(self, p, q):
        if p[0] != q[0]:
            return False
        if p[0] == 'c':
            return p[1] == q[1]
        if p[0] == 'z':
            return p[1].eq(q[1]) or self.holds(p[1] == q[1])
        return self.same(p[1], q[1])

    def norm(self, t):
        return [s for s in t.segs if not (s[0] == 'var' and self.eqi(s[1], 0))]

    def samet(self, a, b):
        x, y = self.norm(a), self.norm(b)
        # split / merge variable segments of different extent through their elements
        i = j = 0
        x, y = list(x), list(y)
        while x and y:
            s, t = x[0], y[0]
            ls, lt = (1 if s[0] == 'el' else s[1]), (1 if t[0] == 'el' else t[1])
            if self.eqi(ls, lt):
                if s[0] == 'el' and t[0] == 'el':
                    if not self.same(s[1], t[1]):
                        return False
                else:
                    k = z3.Int(fresh('i'))
                    sv = s[1] if s[0] == 'el' else s[2](k)
                    tv = t[1] if t[0] == 'el' else t[2](k)
                    if not (s[0] == 'var' and t[0] == 'var' and s[3] is not None and s[3] is t[3]):
                        self.s.pc += [k >= 0, k < ls]
                        r = self.same(sv, tv)
                        del self.s.pc[-2:]
                        if not r:
                            return False
                x.pop(0); y.pop(0)
            elif s[0] == 'var' and self.holds(iv(ls) > lt):
                k = z3.Int(fresh('i'))
                tv = t[1] if t[0] == 'el' else t[2](k)
                self.s.pc += [k >= 0, k < lt]
                r = self.same(s[2](k), tv)
                del self.s.pc[-2:]
                if not r:
                    return False
                x[0] = ('var', conc(iv(ls) - lt), lambda i, at=s[2], o=lt: at(i + o), None)
                y.pop(0)
            elif t[0] == 'var' and self.holds(iv(lt) > ls):
                k = z3.Int(fresh('i'))
                sv = s[1] if s[0] == 'el' else s[2](k)
                self.s.pc += [k >= 0, k < ls]
                r = self.same(sv, t[2](k))
                del self.s.pc[-2:]
                if not r:
                    return False
                y[0] = ('var', conc(iv(lt) - ls), lambda i, at=t[2], o=ls: at(i + o), None)
                x.pop(0)
            else:
                return False
        return not x and not y

    def eqv(self, a, b):
        """z3 / bool condition a == b"""
        if a is None or b is None:
            return a is b
        if isinstance(a, (int, z3.ArithRef)) and isinstance(b, (int, z3.ArithRef)):
            return a == b if isinstance(a, int) and isinstance(b, int) else iv(a) == iv(b)
        if isinstance(a, Txt) and isinstance(b, Txt):
            if a.const() is not None and b.const() is not None:
                return a.const() == b.const()
            if len(a.ps) == 1 and a.ps[0][0] == 's' or len(b.ps) == 1 and b.ps[0][0] == 's':
                raise Unsupported('comparison of rendered values')
            return a.z() == b.z()
        for x, y in ((a, b), (b, a)):
            if isinstance(x, El) and isinstance(y, Txt) and y.const() is not None:
                if y.const() in x.excl:
                    return False
                return z3.Bool('is_' + y.const() + '_' + str(x.tag))
        if isinstance(a, (Tup, Ref)) and isinstance(b, (Tup, Ref)):
            if self.same(a, b):
                return True
            la, lb = self.slen(self.tup(a)), self.slen(self.tup(b))
            if self.eqi(la, 0) or self.eqi(lb, 0):
                return iv(la) == iv(lb)
            raise Unsupported('comparison of sequences')
        raise Unsupported('equality')

    def member(self, x, t):
        """condition: x in sequence t"""
        r = False
        for s in t.segs:
            if s[0] == 'el':
                c = self.eqv(x, s[1])
            else:
                e = s[2](z3.Int(fresh('i')))
                if isinstance(e, El) and isinstance(x, Txt) and x.const() is not None and x.const() in e.excl:
                    c = False
                elif isinstance(e, El) and isinstance(x, Txt) and x.const() is not None:
                    c = z3.Bool(f'has_{x.const()}_{e.tag[0]}')
                else:
                    raise Unsupported('membership')
            if c is True:
                return True
            if c is not False:
                r = c if r is False else z3.Or(r, c)
        return r

    # ------------------------------------------------ expressions
    def ev(self, e, mod=None):
        mod = mod or self.s.env['__mod__']
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression ' + type(e).__name__)
        return m(e, mod)

    def e_Constant(self, e, mod):
        if isinstance(e.value, str):
            return Txt([('c', e.value)])
        if e.value is None or isinstance(e.value, (bool, int)):
            return e.value
        raise Unsupported('constant')

    def e_Name(self, e, mod):
        if e.id in self.s.env:
            v = self.s.env[e.id]
            if isinstance(v, Dead):
                raise Unsupported('value of ' + e.id + ' after the loop')
            return v
        return self.glob(mod, e.id)

    def seq(self, es, mod):
        segs = []
        for x in es:
            if isinstance(x, ast.Starred):
                segs += self.tup(self.ev(x.value, mod)).segs
            else:
                segs.append(('el', self.ev(x, mod)))
        return Tup(segs)

    def e_Tuple(self, e, mod):
        return self.seq(e.elts, mod)

    def e_List(self, e, mod):
        return self.newlist(self.seq(e.elts, mod))

    def newlist(self, t):
        h = fresh('h')
        self.s.heap[h] = t
        return Ref('list', h)

    def e_JoinedStr(self, e, mod):
        ps = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                ps.append(('c', x.value))
            elif isinstance(x, ast.FormattedValue) and x.format_spec is None and x.conversion in (-1, 115):
                ps += self.str(self.ev(x.value, mod)).ps
            else:
                raise Unsupported('format')
        return Txt(ps)

    def str(self, v):
        if isinstance(v, Txt):
            return v
        if isinstance(v, bool) or v is None:
            return Txt([('c', str(v))])
        if isinstance(v, int):
            return Txt([('c', str(v))])
        if isinstance(v, Ref):
            v = self.tup(v)
            raise Unsupported('str of a list')
        return Txt([('s', v)])

    def e_BinOp(self, e, mod):
        a, b = self.ev(e.left, mod), self.ev(e.right, mod)
        op = type(e.op).__name__
        num = lambda x: isinstance(x, (int, z3.ArithRef)) and not isinstance(x, bool)
        if num(a) and num(b):
            if op == 'Add':
                return conc(a + b)
            if op == 'Sub':
                return conc(a - b)
            if op == 'Mult':
                return conc(a * b)
            if op in ('FloorDiv', 'Mod') and isinstance(b, int) and b > 0:
                return (a // b if op == 'FloorDiv' else a % b) if isinstance(a, int) else conc(iv(a) / b if op == 'FloorDiv' else iv(a) % b)
        x, y = real(a), real(b)
        if x is not None and y is not None:
            if op == 'Add':
                return Num(x + y)
            if op == 'Sub':
                return Num(x - y)
            if op == 'Mult':
                return Num(x * y)
            if op == 'Pow' and isinstance(a, int) and num(b) and self.holds(iv(b) >= 0):
                return a ** b if isinstance(b, int) else Num(POWC(x, iv(b)))
        if op == 'Add':
            if isinstance(a, Txt) and isinstance(b, Txt):
                return Txt(a.ps + b.ps)
            if isinstance(a, Ref) and isinstance(b, Ref) and a.kind == b.kind == 'list':
                return self.newlist(Tup(self.tup(a).segs + self.tup(b).segs))
            if isinstance(a, Tup) and isinstance(b, Tup):
                return Tup(a.segs + b.segs)
            if isinstance(a, Tup) and isinstance(b, Ref) or isinstance(a, Ref) and isinstance(b, Tup):
                raise Ctl('raise', 'TypeError')
        if op == 'Mult' and isinstance(a, (Ref, Tup)) and num(b):
            es = self.tup(a).elements()
            if es is not None and len(es) == 1:
                t = Tup([('var', self.rlen(Range(0, b)), lambda i, v=es[0]: v, None)])
                return self.newlist(t) if isinstance(a, Ref) else t
        if op == 'Mod' and isinstance(a, Txt) and a.const() is not None:
            args = b.elements() if isinstance(b, Tup) and len(a.const().split('%s')) > 2 else [b]
            parts = a.const().split('%s')
            if args is not None and len(parts) == len(args) + 1 and '%' not in ''.join(parts):
                ps = [('c', parts[0])]
                for x, p in zip(args, parts[1:]):
                    ps += self.str(x).ps + [('c', p)]
                return Txt(ps)
        raise Unsupported('operator ' + op)

    def e_UnaryOp(self, e, mod):
        v = self.ev(e.operand, mod)
        if isinstance(e.op, ast.Not):
            b = self.truth(v)
            return (not b) if isinstance(b, bool) else z3.Not(b)
        if isinstance(e.op, ast.USub) and isinstance(v, (int, z3.ArithRef)):
            return conc(-v)
        raise Unsupported('unary')

    def truth(self, v):
        if isinstance(v, bool) or z3.is_bool(v):
            return v
        if v is None:
            return False
        if isinstance(v, int):
            return v != 0
        if isinstance(v, z3.ArithRef):
            return v != 0
        if isinstance(v, (Tup, Ref, Range)):
            n = self.slen(self.tup(v))
            return n > 0
        if isinstance(v, Txt):
            return v.const() != '' if v.const() is not None else z3.Length(v.z()) > 0
        raise Unsupported('truth value')

    def cond(self, v):
        return self.branch(self.truth(v))

    def e_BoolOp(self, e, mod):
        isand = isinstance(e.op, ast.And)
        for x in e.values[:-1]:
            v = self.ev(x, mod)
            t = self.cond(v)
            if t != isand:
                return t if isinstance(v, bool) or z3.is_bool(v) else v
        return self.ev(e.values[-1], mod)

    def e_IfExp(self, e, mod):
        return self.ev(e.body if self.cond(self.ev(e.test, mod)) else e.orelse, mod)

    def e_Compare(self, e, mod):
        l = self.ev(e.left, mod)
        r = True
        for op, x in zip(e.ops, e.comparators):
            b = self.ev(x, mod)
            c = self.cmp(type(op).__name__, l, b)
            r = c if r is True else (r if c is True else False if (c is False or r is False) else z3.And(r, c))
            l = b
        return r

    def cmp(self, op, a, b):
        if op in ('Is', 'IsNot') and (a is None or b is None):
            return (a is b) == (op == 'Is')
        if op in ('Eq', 'NotEq'):
            c = self.eqv(a, b)
            return c if op == 'Eq' else (not c if isinstance(c, bool) else z3.Not(c))
        if op in ('Lt', 'LtE', 'Gt', 'GtE') and isinstance(a, (int, z3.ArithRef)) and isinstance(b, (int, z3.ArithRef)):
            a, b = (iv(a), iv(b)) if not (isinstance(a, int) and isinstance(b, int)) else (a, b)
            return {'Lt': lambda: a < b, 'LtE': lambda: a <= b, 'Gt': lambda: a > b, 'GtE': lambda: a >= b}[op]()
        if op in ('In', 'NotIn'):
            if isinstance(a, Txt) and isinstance(b, Txt):
                c = z3.Contains(b.z(), a.z())
            elif isinstance(b, Ref) and b.kind == 'list' and isinstance(self.s.heap[b.h], Acc):
                raise AccTest(b, a)
            elif isinstance(b, Dist):
                c = self.dmember(b, a)
            else:
                c = self.member(a, self.tup(b))
            return c if op == 'In' else (not c if isinstance(c, bool) else z3.Not(c))
        raise Unsupported('comparison ' + op)

    def dmember(self, d, x):
        raise Unsupported('membership')

    def e_Subscript(self, e, mod):
        o = self.ev(e.value, mod)
        if isinstance(e.slice, ast.Slice):
            if e.slice.step is not None:
                raise Unsupported('step')
            lo = self.ev(e.slice.lower, mod) if e.slice.lower else None
            hi = self.ev(e.slice.upper, mod) if e.slice.upper else None
            if isinstance(o, Txt):
                if o.const() is not None and not z3.is_expr(lo) and not z3.is_expr(hi):
                    return Txt([('c', o.const()[lo:hi])])
                z = o.z()
                n = z3.Length(z)
                if hi is None and isinstance(lo, int) and lo < 0:
                    return Txt([('z', z3.If(n >= -lo, z3.SubString(z, n + lo, -lo), z))])
                if lo in (None, 0) and isinstance(hi, int) and hi < 0:
                    return Txt([('z', z3.If(n >= -hi, z3.SubString(z, 0, n + hi), z3.StringVal('')))])
                if hi is None and isinstance(lo, int) and lo >= 0:
                    return Txt([('z', z3.If(n >= lo, z3.SubString(z, lo, n - lo), z3.StringVal('')))])
                if lo in (None, 0) and isinstance(hi, int) and hi >= 0:
                    return Txt([('z', z3.SubString(z, 0, hi))])
                raise Unsupported('string slice')
            r = self.slice(self.tup(o), lo, hi)
            return self.newlist(r) if isinstance(o, Ref) else r
        i = self.ev(e.slice, mod)
        if isinstance(o, PolyP):
            k = self.keyof(o, i)
            return Coef(k)
        if isinstance(o, Dist):
            return self.dat(o, i)
        if isinstance(o, Arr):
            return self.arrel(o, i)
        return self.index(self.tup(o), i)

    def keyof(self, p, k):
        if isinstance(k, Tup):
            for nm, kid in self.s.keys:
                if nm == p.name and self.same(k, p.mkkey(kid)):
                    return kid
        raise Unsupported('lookup of a computed key')

    def dat(self, d, i, inside=False):
        if not inside and not self.branch(z3.And(iv(i) >= 0, iv(i) < d.len)):
            raise Ctl('raise', 'IndexError')
        w = self.newkey(d.p, z3.Const(fresh('w'), KEY))
        v = d.at(iv(i))
        self.s.pc += [d.f(w) == v, d.idx(v) == iv(i)]
        self.dkeys(d)
        return v

    def dkeys(self, d):
        """facts of the distinct values for every key in play"""
        for nm, k in self.s.keys:
            if nm == d.p.name:
                j = d.idx(d.f(k))
                self.s.pc += [j >= 0, j < d.len, d.at(j) == d.f(k)]

    def arrel(self, a, i):
        if not self.branch(z3.And(iv(i) >= 0, iv(i) < a.len) if z3.is_expr(a.len) or z3.is_expr(i) else 0 <= i < a.len):
            raise Ctl('raise', 'IndexError')
        return ArrEl(a, i)

    def e_Attribute(self, e, mod):
        o = self.ev(e.value, mod)
        return self.attr(o, e.attr)

    def attr(self, o, name):
        if isinstance(o, PolyP) and name == 'keyfor':
            return o.kf
        if isinstance(o, PolyP) and name == 'data':
            return o
        if isinstance(o, Coef) and name in ('numerator', 'denominator'):
            return El((name, o.kid))
        if isinstance(o, Mod):
            return ('ext', o.name + '.' + name)
        return Bound(o, name)

    def e_Lambda(self, e, mod):
        raise Unsupported('lambda')

    def e_SetComp(self, e, mod):
        return self.comp(e, mod, 'set')

    def e_ListComp(self, e, mod):
        return self.comp(e, mod, 'list')

    def e_GeneratorExp(self, e, mod):
        return self.comp(e, mod, 'gen')

    def comp(self, e, mod, kind):
        if len(e.generators) != 1 or e.generators[0].ifs:
            raise Unsupported('comprehension')
        g = e.generators[0]
        it = self.ev(g.iter, mod)
        saved = dict(self.s.env)
        if isinstance(it, (PolyP, Items)):
            if kind not in ('set', 'gen'):
                raise Unsupported('list over the terms')
            p = it if isinstance(it, PolyP) else it.p
            kid, v = self.itemof(it)
            self.assign(g.target, v)
            x = self.ev(e.elt, mod)
            self.s.env = saved
            if not isinstance(x, z3.ArithRef):
                raise Unsupported('image of the terms')
            return ('image', p, kid, x)
        if isinstance(it, Dist) or isinstance(it, Arr):
            seg = ('var', it.len, (lambda i: self.dat(it, i, True)) if isinstance(it, Dist) else (lambda i: ArrEl(it, i)), None)
            t = Tup([seg])
        else:
            t = self.tup(it)
        segs = []
        for sg in t.segs:
            if sg[0] == 'el':
                self.assign(g.target, sg[1])
                segs.append(('el', self.ev(e.elt, mod)))
                continue
            i = z3.Int(fresh('i'))
            npc, nk, nd = len(self.s.pc), len(self.s.keys), self.pos
            ev0 = len(self.s.ev)
            self.s.pc += [i >= 0, i < sg[1]]
            self.assign(g.target, sg[2](i))
            v = self.ev(e.elt, mod)
            if self.pos != nd or len(self.s.ev) != ev0:
                raise Unsupported('comprehension with effects or case splits')
            del self.s.pc[npc:], self.s.keys[nk:]
            if isinstance(v, Ref) and v.kind == 'poly':
                segs.append(('arr', sg[1]))
            else:
                segs.append(('var', sg[1], lambda j, v=v, i=i: subst(v, i, iv(j)), object()))
        self.s.env = saved
        if any(s[0] == 'arr' for s in segs):
            if len(segs) != 1:
                raise Unsupported('list of formulas')
            return Arr(fresh('arr'), segs[0][1])
        if kind == 'set':
            raise Unsupported('set')
        return self.newlist(Tup(segs)) if kind == 'list' else Tup(segs)

    def itemof(self, it):
        """(kid, generic loop value)"""
        p = it if isinstance(it, PolyP) else it.p
        kid = self.newkey(p)
        what = 'keys' if isinstance(it, PolyP) else it.what
        k = p.mkkey(kid)
        v = {'keys': k, 'items': Tup([('el', k), ('el', Coef(kid))]), 'values': Coef(kid)}[what]
        return kid, v

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.s.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            es = self.tup(v).elements()
            if es is None or len(es) != len(t.elts):
                raise Unsupported('unpacking')
            for x, y in zip(t.elts, es):
                self.assign(x, y)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            if isinstance(o, PolyP):
                self.event(('mutate', o.name))
                return
            if isinstance(o, ArrEl) or isinstance(o, Ref) and o.kind == 'poly':
                if isinstance(t.slice, ast.Slice):
                    raise Unsupported('slice')
                k = self.ev(t.slice)
                self.hashable(k)
                self.event(('put', o, k, v))
                return
            if isinstance(o, Ref) and o.kind == 'list' and not isinstance(t.slice, ast.Slice):
                return self.setitem(o, self.ev(t.slice), v)
            raise Unsupported('item assignment')
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            if isinstance(o, PolyP):
                self.event(('mutate', o.name))
                return
            raise Unsupported('attribute assignment')
        else:
            raise Unsupported('assignment target')

    def setitem(self, o, i, v):
        t = self.s.heap[o.h]
        if isinstance(t, Acc):
            self.event(('setitem', o.h, i, v))
            return
        n = self.slen(t)
        if isinstance(i, int) and i < 0:
            i = conc(n + i)
        if not self.branch(z3.And(iv(i) >= 0, iv(i) < n)):
            raise Ctl('raise', 'IndexError')
        l, r = self.cut(t, i)
        d, r = self.cut(r, 1)
        self.s.heap[o.h] = Tup(l.segs + [('el', v)] + r.segs)

    def hashable(self, k):
        if isinstance(k, Ref):
            raise Ctl('raise', 'TypeError')

    def event(self, e):
        self.s.ev.append(e)

    # ------------------------------------------------ calls
    def e_Call(self, e, mod):
        f = self.ev(e.func, mod)
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                raise Unsupported('**')
            kw[k.arg] = k.value
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                es = self.tup(self.ev(a.value, mod)).elements()
                if es is None:
                    raise Unsupported('star argument')
                args += es
            else:
                args.append(self.ev(a, mod))
        kw = {k: self.ev(v, mod) for k, v in kw.items()}
        return self.call(f, args, kw, mod)

    def call(self, f, args, kw, mod):
        if isinstance(f, Fun):
            return self.callfun(f, args, kw)
        if isinstance(f, Bound):
            return self.method(f.obj, f.name, args, kw, mod)
        if isinstance(f, tuple) and f[0] == 'builtin':
            return self.builtin(f[1], args, kw)
        if isinstance(f, tuple) and f[0] == 'class' and f[1].endswith('.Poly') and not args and not kw:
            return Ref('poly', fresh('p'))
        if isinstance(f, tuple) and f[0] == 'ext':
            if f[1] == 'csv.writer' and len(args) == 1 and isinstance(args[0], Ref) and args[0].kind == 'file':
                bad = [k for k in kw if k not in ('lineterminator',)]
                if bad or ('lineterminator' in kw and kw['lineterminator'].const() not in ('\n', '\r\n')):
                    raise Unsupported('csv dialect')
                return Ref('csv', args[0].h)
            if f[1] == 'math.comb' and len(args) == 2 and not kw:
                self.need(z3.And(iv(args[0]) >= 0, iv(args[1]) >= 0), 'math.comb of numbers that are not negative')
                return Num(COMB(iv(args[0]), iv(args[1])))
            if f[1] == 'io.open':
                return self.builtin('open', args, kw)
            if f[1] == 'os.fspath' and isinstance(args[0], Txt):
                return args[0]
        raise Unsupported('call')

    def callfun(self, f, args, kw):
        c = CALLS.get(f.qual)
        if c is not None and f.qual != self.unit.qual:
            self.used.add(f.qual)
            return c(self, f, args, kw)
        if self.depth > 6:
            raise Unsupported('recursion')
        names = [a.arg for a in f.node.args.args]
        if f.node.args.vararg or f.node.args.kwarg or f.node.args.kwonlyargs:
            raise Unsupported('signature')
        env = {'__mod__': f.mod}
        ds = f.node.args.defaults
        for nm, d in zip(names[len(names) - len(ds):], ds):
            env[nm] = self.ev(d, f.mod)
        env.update(zip(names, args))
        env.update(kw)
        if any(n not in env for n in names) or len(args) > len(names):
            raise Ctl('raise', 'TypeError')
        self.inlined.add(f.qual)
        saved = self.s.env
        self.s.env = env
        self.depth += 1
        try:
            self.block(f.node.body)
            return None
        except Ctl as x:
            if x.kind == 'return':
                return x.val
            raise
        finally:
            self.depth -= 1
            self.s.env = saved

    def builtin(self, n, args, kw):
        if n == 'str' and len(args) == 1:
            return self.str(args[0])
        if n == 'repr' and len(args) == 1 and not isinstance(args[0], (Txt, El)):
            return self.str(args[0])
        if n == 'len' and len(args) == 1:
            a = args[0]
            if isinstance(a, (Dist, Arr)):
                return a.len
            if isinstance(a, Txt):
                return conc(z3.Length(a.z()))
            if isinstance(a, PolyP):
                raise Unsupported('number of terms')
            return self.slen(self.tup(a))
        if n in ('min', 'max') and len(args) > 1 and not kw and all(isinstance(a, (int, z3.ArithRef)) and not isinstance(a, bool) for a in args) \
                and all(isinstance(a, int) or a.is_int() for a in args):
            r = args[0]
            for a in args[1:]:
                r = conc(z3.simplify(z3.If(iv(a) < iv(r), iv(a), iv(r)) if n == 'min' else z3.If(iv(a) > iv(r), iv(a), iv(r))))
            return r
        if n == 'range' and len(args) in (1, 2):
            return Range(0, args[0]) if len(args) == 1 else Range(*args)
        if n in ('tuple', 'list') and len(args) <= 1:
            if args and isinstance(args[0], (Items, PolyP)):
                return args[0] if n == 'list' else args[0]
            if args and isinstance(args[0], (Dist, Arr)):
                return args[0]
            t = self.tup(args[0]) if args else Tup([])
            return self.newlist(t) if n == 'list' else t
        if n == 'print':
            if 'file' in kw:
                a = kw['file']
                if not (isinstance(a, Ref) and a.kind == 'file'):
                    raise Unsupported('print')
                sep = kw['sep'].ps if 'sep' in kw else [('c', ' ')]
                ps = []
                for i, x in enumerate(args):
                    ps += (sep if i else []) + self.str(x).ps
                self.event(('write', a.h, Txt(ps + (kw['end'].ps if 'end' in kw else [('c', '\n')]))))
            return None
        if n == 'open':
            names = ('file', 'mode', 'buffering', 'encoding', 'errors', 'newline')
            a = dict(zip(names, args))
            a.update(kw)
            if any(k not in names for k in a) or 'buffering' in a or 'errors' in a:
                raise Unsupported('open')
            if not isinstance(a['file'], Txt):
                raise Unsupported('file name')
            h = fresh('f')
            txt = lambda k, d: d if k not in a or a[k] is None else a[k].const()
            self.event(('open', h, a['file'], txt('mode', 'r'), txt('encoding', None), txt('newline', None)))
            return Ref('file', h)
        if n == 'sorted' and len(args) == 1 and not kw:
            a = args[0]
            if isinstance(a, (Items, PolyP)):
                return a
            if isinstance(a, tuple) and a[0] == 'image':
                return self.mkdist(a[1], a[2], a[3], True)
            if isinstance(a, Dist):
                return self.mkdist(a.p, a.kid, a.e, True)
        if n in ('set', 'frozenset') and len(args) == 1 and isinstance(args[0], tuple) and args[0][0] == 'image':
            return args[0]
        if n == 'enumerate' and len(args) == 1:
            a = args[0]
            ln, at = self.indexable(a)
            return Rng2(ln, lambda i: Tup([('el', i), ('el', at(i))]))
        if n == 'zip' and len(args) == 2:
            (la, fa), (lb, fb) = map(self.indexable, args)
            if not self.eqi(la, lb):
                raise Unsupported('zip of different lengths')
            return Rng2(la, lambda i: Tup([('el', fa(i)), ('el', fb(i))]))
        if n == 'isinstance':
            raise Unsupported('isinstance')
        if n == 'next' and len(args) == 1 and isinstance(args[0], tuple) and args[0][0] == 'iter':
            raise Unsupported('next')
        raise Unsupported('builtin ' + n)

    def indexable(self, a):
        if isinstance(a, Dist):
            return a.len, lambda i: self.dat(a, i)
        if isinstance(a, Arr):
            return a.len, lambda i: ArrEl(a, i)
        if isinstance(a, Range):
            return self.rlen(a), lambda i: conc(iv(a.lo) + i)
        t = self.tup(a)
        return self.slen(t), lambda i: self.index(t, i)

    def mkdist(self, p, kid, e, srt):
        d = Dist(p, kid, e, srt, fresh('d'))
        self.s.pc.append(d.len >= 0)
        self.dkeys(d)
        # facts for later keys
        j = d.idx(e)
        self.every(p, kid, z3.And(j >= 0, j < d.len, d.at(j) == e))
        return d

    def method(self, o, n, args, kw, mod):
        if isinstance(o, Txt):
            if n == 'endswith' and len(args) == 1:
                if isinstance(args[0], Tup):
                    es = args[0].elements()
                    return z3.Or(*[z3.SuffixOf(x.z(), o.z()) for x in es])
                return z3.SuffixOf(args[0].z(), o.z()) if o.const() is None else o.const().endswith(args[0].const())
            if n == 'startswith' and len(args) == 1:
                return z3.PrefixOf(args[0].z(), o.z())
            if n == 'join' and len(args) == 1 and not kw:
                es = self.tup(args[0]).elements()
                if es is None:
                    raise Unsupported('join')
                ps = []
                for i, x in enumerate(es):
                    if not isinstance(x, Txt):
                        raise Unsupported('join')
                    ps += (o.ps if i else []) + x.ps
                return Txt(ps)
            if n == 'format' and o.const() is not None and not kw:
                parts = o.const().split('{}')
                if len(parts) == len(args) + 1 and '{' not in ''.join(parts) and '}' not in ''.join(parts):
                    ps = [('c', parts[0])]
                    for x, p in zip(args, parts[1:]):
                        ps += self.str(x).ps + [('c', p)]
                    return Txt(ps)
            raise Unsupported('str.' + n)
        if isinstance(o, PolyP):
            if n in ('items', 'keys', 'values') and not args:
                return Items(o, n)
            f = self.find('ajdmom.poly.Poly.' + n)
            if isinstance(f, Fun):
                if n in MUTATORS:
                    self.event(('mutate', o.name))
                    return None
                return self.callfun(f, [o] + args, kw)
            raise Unsupported('method ' + n)
        if isinstance(o, Ref) and o.kind == 'poly':
            if n in ('set_keyfor', 'add_keyval', 'remove_zero'):
                self.used.add('ajdmom.poly.Poly.' + n)
            if n == 'remove_zero' and not args:
                self.event(('remove_zero', o))
                return None
        if isinstance(o, ArrEl) or isinstance(o, Ref) and o.kind == 'poly':
            if n == 'set_keyfor' and len(args) == 1:
                self.event(('set_keyfor', o, self.tup(args[0])))
                return None
            if n == 'add_keyval' and len(args) == 2:
                self.hashable(args[0])
                self.event(('add', o, args[0], args[1]))
                return None
            f = self.find('ajdmom.poly.Poly.' + n)
            if isinstance(f, Fun) and n.startswith('write_to_'):
                self.used.add(f.qual)
                self.event((n, o, args, kw))
                return None
            raise Unsupported('method ' + n)
        if isinstance(o, Ref) and o.kind == 'file':
            if n == 'write' and len(args) == 1 and isinstance(args[0], Txt):
                self.event(('write', o.h, args[0]))
                return 0
            if n == 'writelines' and len(args) == 1:
                for x in self.tup(args[0]).elements() or self.unsup('writelines'):
                    self.event(('write', o.h, x))
                return None
            if n == 'close':
                self.event(('close', o.h))
                return None
            if n == 'flush':
                return None
        if isinstance(o, Ref) and o.kind == 'csv':
            if n == 'writerow' and len(args) == 1:
                self.event(('row', o.h, self.tup(args[0])))
                return None
            if n == 'writerows' and len(args) == 1:
                for x in self.tup(args[0]).elements() or self.unsup('writerows'):
                    self.event(('row', o.h, self.tup(x)))
                return None
        if isinstance(o, Ref) and o.kind == 'list':
            if isinstance(self.s.heap[o.h], Acc):
                if n != 'append':
                    raise Unsupported('list.' + n)
                self.event(('append', o.h, args[0]))
                return None
            if n == 'append' and len(args) == 1:
                self.s.heap[o.h] = Tup(self.s.heap[o.h].segs + [('el', args[0])])
                return None
            if n == 'extend' and len(args) == 1:
                self.s.heap[o.h] = Tup(self.s.heap[o.h].segs + self.tup(args[0]).segs)
                return None
            if n == 'copy':
                return self.newlist(self.s.heap[o.h])
        if isinstance(o, (Tup, Ref)) and n == 'index' and len(args) == 1:
            acc = 0
            for s in self.tup(o).segs:
                hook = self.hooks.get(s[3]) if s[0] == 'var' and isinstance(s[3], str) else None
                if hook:
                    found, pos = hook(args[0])
                    if self.branch(found):
                        return acc + pos
                    acc = acc + s[1]
                    continue
                if s[0] == 'el':
                    c = self.eqv(args[0], s[1])
                    if self.branch(c):
                        return acc
                    acc = acc + 1
                else:
                    if self.member(args[0], Tup([s])) is not False:
                        raise Unsupported('index')
                    acc = acc + s[1]
            raise Ctl('raise', 'ValueError')
        if isinstance(o, Dist):
            if n == 'index' and len(args) == 1:
                for nm, k in self.s.keys:
                    if nm == o.p.name and self.eqi(o.f(k), args[0]):
                        self.dkeys(o)
                        return o.idx(iv(args[0]))
                raise Unsupported('index of a value that is not the level of a term')
            if n == 'sort' and not args:
                o.srt = True
                return None
        raise Unsupported('method ' + n)

    def unsup(self, w):
        raise Unsupported(w)

    # ------------------------------------------------ statements
    def block(self, body):
        for st in body:
            m = getattr(self, 's_' + type(st).__name__, None)
            if m is None:
                raise Unsupported('statement ' + type(st).__name__)
            m(st)

    def s_Expr(self, st):
        if isinstance(st.value, ast.Constant):
            return
        self.ev(st.value)

    def s_Pass(self, st):
        pass

    def s_Assert(self, st):
        if not self.cond(self.ev(st.test)):
            raise Ctl('raise', 'AssertionError')

    def s_Delete(self, st):
        for t in st.targets:
            if not isinstance(t, ast.Name):
                raise Unsupported('del')
            self.s.env.pop(t.id, None)

    def s_Return(self, st):
        raise Ctl('return', self.ev(st.value) if st.value else None)

    def s_Raise(self, st):
        raise Ctl('raise', 'exception')

    def s_Break(self, st):
        raise Ctl('break')

    def s_Continue(self, st):
        raise Ctl('continue')

    def s_Assign(self, st):
        v = self.ev(st.value)
        for t in st.targets:
            self.assign(t, v)

    def s_AnnAssign(self, st):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value))

    def s_AugAssign(self, st):
        if isinstance(st.target, ast.Subscript):
            o = self.ev(st.target.value)
            if not (isinstance(o, Ref) and o.kind == 'list') or isinstance(st.target.slice, ast.Slice):
                raise Unsupported('augmented assignment')
            load = ast.Subscript(st.target.value, st.target.slice, ast.Load())
            return self.assign(st.target, self.ev(ast.BinOp(load, st.op, st.value)))
        if not isinstance(st.target, ast.Name):
            raise Unsupported('augmented assignment')
        cur = self.s.env.get(st.target.id)
        if isinstance(cur, Ref) and cur.kind == 'list' and isinstance(st.op, ast.Add):
            if isinstance(self.s.heap[cur.h], Acc):
                raise Unsupported('list +=')
            self.s.heap[cur.h] = Tup(self.s.heap[cur.h].segs + self.tup(self.ev(st.value)).segs)
            return
        b = ast.BinOp(ast.Name(st.target.id, ast.Load()), st.op, st.value)
        self.assign(st.target, self.ev(b))

    def s_If(self, st):
        self.block(st.body if self.cond(self.ev(st.test)) else st.orelse)

    def s_With(self, st):
        opened = []
        for it in st.items:
            v = self.ev(it.context_expr)
            if not (isinstance(v, Ref) and v.kind == 'file'):
                raise Unsupported('with')
            opened.append(v)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v)
        try:
            self.block(st.body)
        finally:
            for v in reversed(opened):
                self.event(('close', v.h))

    def s_Try(self, st):
        if st.handlers or st.orelse:
            raise Unsupported('try')
        try:
            self.block(st.body)
        finally:
            self.block(st.finalbody)

    def s_Import(self, st):
        for a in st.names:
            self.s.env[a.asname or a.name] = Mod(a.name)

    def s_FunctionDef(self, st):
        raise Unsupported('nested function')

    # -------- loops
    def s_While(self, st):
        """integer loop variables: the largest inductive subset of simple bounds"""
        s0 = self.s
        names = {n.id for x in st.body for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        ints = [n for n in names if n in s0.env]
        for n in ints:
            if not isinstance(s0.env[n], (int, z3.ArithRef)) or isinstance(s0.env[n], bool):
                raise Unsupported('while with variable ' + n)
        bounds = []
        for v in s0.env.values():
            if isinstance(v, PolyP):
                acc = 0
                for sg in v.kf.segs:
                    acc = acc + (1 if sg[0] == 'el' else sg[1])
                    bounds.append(acc)
                bounds += [sum0(v.kf.segs[:j]) for j in range(len(v.kf.segs))]
        fr = {n: z3.Int(fresh(n)) for n in ints}
        cands = []
        for n in ints:
            cands.append((n, lambda x, a=s0.env[n]: x >= a))
            for b in bounds:
                cands.append((n, lambda x, b=b: x <= b))
        cands = [(n, c) for n, c in cands if self.holds(asb(c(iv(s0.env[n]))))]
        while True:
            s1 = s0.copy()
            for n in ints:
                s1.env[n] = fr[n]
            s1.pc += [asb(c(fr[n])) for n, c in cands]

            def body():
                if not self.cond(self.ev(st.test)):
                    raise Ctl('exit')
                try:
                    self.block(st.body)
                except Ctl as x:
                    if x.kind != 'continue':
                        raise
            ends = self.explore(s1, body)
            bad = set()
            for e, kind, val in ends:
                if kind == 'next':
                    if len(e.ev) != len(s1.ev) or e.heap != s1.heap:
                        raise Unsupported('while with effects')
                    sv, self.s = self.s, e
                    for j, (n, c) in enumerate(cands):
                        if not self.holds(asb(c(iv(e.env[n])))):
                            bad.add(j)
                    self.s = sv
            if not bad:
                break
            cands = [c for j, c in enumerate(cands) if j not in bad]
        left = [(n, b) for n in ints for b in [None] + bounds]           # a variable that counts up to a bound or down to 0
        for e, kind, val in ends:
            if kind == 'next':
                sv, self.s = self.s, e
                left = [(n, b) for n, b in left if self.holds(asb(z3.And(iv(e.env[n]) <= fr[n] - 1, fr[n] >= 1) if b is None else z3.And(iv(e.env[n]) >= fr[n] + 1, fr[n] + 1 <= b)))]
                self.s = sv
                if not left:
                    raise Unsupported('termination of a while loop')
        outs = []
        for e, kind, val in ends:
            if kind == 'next':
                continue
            for n in names - set(ints):
                e.env[n] = Dead()
            outs.append((e, kind, val))
        self.pick(outs, st.orelse)

    def pick(self, outs, orelse=()):
        """continue with one of the exits of a loop"""
        if not outs:
            raise Infeasible()
        j = self.choose([True] * len(outs))
        e, kind, val = outs[j]
        self.s = e.copy()
        if kind in ('return', 'raise'):
            raise Ctl(kind, val)
        if kind == 'exit' and orelse:
            self.block(orelse)

    def s_For(self, st):
        it = self.ev(st.iter)
        if isinstance(it, (PolyP, Items)):
            return self.forterms(st, it)
        if isinstance(it, (Range, Dist, Arr, Rng2)):
            if isinstance(it, Range) and isinstance(it.lo, int) and isinstance(it.hi, int) and it.hi - it.lo <= 8:
                for i in range(it.lo, it.hi):
                    if self.one(st, i):
                        return
                return self.block(st.orelse)
            n, at = (it.n, it.at) if isinstance(it, Rng2) else self.indexable(it)
            return self.forrange(st, n, at)
        t = self.tup(it)
        es = t.elements()
        if es is None:
            n, at = self.indexable(t)
            return self.forrange(st, n, at)
        for x in es:
            if self.one(st, x):
                return
        self.block(st.orelse)

    def one(self, st, x):
        self.assign(st.target, x)
        try:
            self.block(st.body)
        except Ctl as c:
            if c.kind == 'break':
                return True
            if c.kind != 'continue':
                raise
        return False

    def deadvars(self, st, s):
        for n in {n.id for x in [st.target] + st.body for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}:
            s.env[n] = Dead()

    def forrange(self, st, n, at):
        s0 = self.s
        i = z3.Int(fresh('i'))
        s1 = s0.copy()
        s1.pc += [i >= 0, i < n]
        npre = len(s1.pc)
        grow, scat = self.listuses(st, s0)
        for nm, ref in list(grow.items()) + list(scat.items()):
            s1.heap[ref.h] = Acc()

        def body():
            for nm in stores(st.body) - stores([st.target]):
                self.s.env[nm] = Dead()
            self.assign(st.target, at(i))
            try:
                self.block(st.body)
            except Ctl as c:
                if c.kind != 'continue':
                    raise
        ends = self.explore(s1, body)
        alts = []
        for e, kind, val in ends:
            if kind == 'raise':
                continue
            if kind != 'next' or any(e.heap.get(h) is not s1.heap[h] for h in s1.heap):
                raise Unsupported('loop with early exit or list updates')
            alts.append((e.pc[npre:], e.ev[len(s1.ev):], e))
        outs = [(e, kind, val) for e, kind, val in ends if kind == 'raise']
        s2 = s0.copy()
        if grow or scat:
            if len(alts) == 1:
                pcs, evs, e = alts[0]
                for nm, ref in grow.items():
                    mine = [x for x in evs if x[0] == 'append' and x[1] == ref.h]
                    evs = [x for x in evs if x not in mine]
                    if len(mine) != 1:
                        raise Unsupported('list of results')
                    s2.heap[ref.h] = Tup(s0.heap[ref.h].segs + [('var', self.rlen(Range(0, n)), self.lazy(i, n, pcs, mine[0][2]), None)])
                for nm, ref in scat.items():
                    mine = [x for x in evs if x[0] == 'setitem' and x[1] == ref.h]
                    evs = [x for x in evs if x not in mine]
                    if len(mine) != 1:
                        raise Unsupported('list updates')
                    s2.heap[ref.h] = self.scatter(s0, s0.heap[ref.h], i, n, pcs, mine[0][2], mine[0][3])
                alts = [(pcs, evs, e)]
            elif alts:
                raise Unsupported('list updates on several paths')
        if any(a[1] for a in alts):
            s2.ev.append(('range', i, n, s1.pc[len(s0.pc):], alts))
        self.deadvars(st, s2)
        outs.append((s2, 'exit', None))
        self.pick(outs, st.orelse)

    def listuses(self, st, s0):
        """lists of the surrounding scope that the loop body appends to / stores into"""
        grow, scat = {}, {}
        for b in st.body:
            for x in ast.walk(b):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'append' and isinstance(x.func.value, ast.Name):
                    v = s0.env.get(x.func.value.id)
                    if isinstance(v, Ref) and v.kind == 'list' and x.func.value.id not in stores(st.body):
                        grow[x.func.value.id] = v
                if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name):
                    v = s0.env.get(x.value.id)
                    if isinstance(v, Ref) and v.kind == 'list' and x.value.id not in stores(st.body):
                        scat[x.value.id] = v
        if set(grow) & set(scat):
            raise Unsupported('list updates')
        return grow, scat

    def lazy(self, i, n, pcs, v):
        """element j of a list of results: the facts of iteration j are added when it is looked at"""
        def at(j):
            for c in pcs:
                self.s.pc.append(z3.Implies(z3.And(iv(j) >= 0, iv(j) < n), z3.substitute(c, (i, iv(j)))))
            return subst(v, i, iv(j))
        return at

    def scatter(self, s0, base, i, n, pcs, idx, val):
        """base with base[idx(i)] = val(i) for i in 0..n-1; the positions must differ"""
        sv, self.s = self.s, s0.copy()
        j = z3.Int(fresh('i'))
        idx = iv(idx)
        sub = lambda c: z3.substitute(c, (i, j))
        self.s.pc += pcs + [sub(c) for c in pcs] + [i >= 0, i < n, j >= 0, j < n, idx == sub(idx)]
        ok = self.holds(i == j)
        self.s = sv.copy()
        self.s.pc += pcs + [i >= 0, i < n]
        m = self.slen(base)
        ok = ok and self.holds(z3.And(idx >= 0, idx < m))
        self.s = sv
        if not ok:
            raise Unsupported('the same position may be set twice')
        sc = Scatter(base, i, n, pcs, idx, val)

        def noat(j):
            raise Unsupported('element of a scattered list')
        m = 0
        for g in base.segs:
            m = m + (1 if g[0] == 'el' else g[1])
        return Tup([('var', iv(m), noat, sc)])

    def forterms(self, st, it):
        p = it if isinstance(it, PolyP) else it.p
        s0 = self.s
        # lists updated by the loop: accumulators of distinct values
        lists = [nm for nm, v in s0.env.items() if isinstance(v, Ref) and v.kind == 'list' and
                 any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('append', 'extend') and isinstance(x.func.value, ast.Name)
                     and x.func.value.id == nm for b in st.body for x in ast.walk(b))]
        if lists:
            return self.distloop(st, it, p, lists)
        sets = stores(st.body) | stores([st.target])
        base = _n[0]
        s1 = s0.copy()
        self.s = s1
        kid, v = self.itemof(it)
        self.s = s0

        def body():
            for nm in stores(st.body) - stores([st.target]):
                self.s.env[nm] = Dead()
            self.assign(st.target, v)
            try:
                self.block(st.body)
            except Ctl as c:
                if c.kind != 'continue':
                    raise
        ends = self.explore(s1, body)
        alts, outs, brk = [], [], False
        for e, kind, val in ends:
            if any(e.heap.get(h) is not s1.heap[h] for h in s1.heap):
                raise Unsupported('list updates')
            if kind == 'next':
                alts.append((e.pc[len(s1.pc):], e.ev[len(s1.ev):], e))
            elif kind in ('break', 'return'):
                brk = True
                if len(e.ev) != len(s1.ev):
                    raise Unsupported('early exit with effects')
                outs.append((e, 'exit' if kind == 'return' else 'broke', val) if kind == 'break' else (e, 'return', val))
            else:
                outs.append((e, kind, val))
        eff = any(a[1] for a in alts)
        if brk and eff:
            raise Unsupported('early exit and effects')
        if brk and any(a for a in alts):
            pass        # earlier iterations had no effect: fine
        s2 = s0.copy()
        if eff:
            s2.ev.append(('each', p.name, kid, s1.pc[len(s0.pc):], alts))
        self.deadvars(st, s2)
        for nm in sets:         # values after zero iterations survive when no iteration completes normally
            if not alts and nm in s0.env:
                s2.env[nm] = s0.env[nm]
        c = z3.BoolVal(False)
        if alts:
            c = z3.Or(*[z3.And(*a[0]) if a[0] else z3.BoolVal(True) for a in alts])
        sv, self.s = self.s, s2
        if not z3.is_true(z3.simplify(c)):
            if onlykid(c, kid, base):
                self.every(p, kid, c)
        self.s = sv
        outs.append((s2, 'exit', None))
        self.pick(outs, st.orelse)

    def distloop(self, st, it, p, lists):
        if len(lists) != 1:
            raise Unsupported('several lists')
        nm = lists[0]
        ref = self.s.env[nm]
        if self.s.heap[ref.h].segs:
            raise Unsupported('list not empty before the loop')
        s0 = self.s
        s1 = s0.copy()
        self.s = s1
        kid, v = self.itemof(it)
        self.s = s0
        s1.heap[ref.h] = Acc()
        isin = z3.Bool(fresh('in'))
        tested, appended = [], []

        def body():
            self.assign(st.target, v)
            self.acc = (isin, tested)
            try:
                self.block(st.body)
            except Ctl as c:
                if c.kind != 'continue':
                    raise
        old = self.cmp, self.method

        def cmp(op, a, b):
            if op in ('In', 'NotIn') and isinstance(b, Ref) and b.kind == 'list' and isinstance(self.s.heap[b.h], Acc):
                tested.append(a)
                return isin if op == 'In' else z3.Not(isin)
            return old[0](op, a, b)

        def method(o, n, args, kw, mod):
            if isinstance(o, Ref) and o.kind == 'list' and isinstance(self.s.heap.get(o.h), Acc):
                if n != 'append':
                    raise Unsupported('list.' + n)
                self.event(('append', args[0]))
                return None
            return old[1](o, n, args, kw, mod)
        self.cmp, self.method = cmp, method
        try:
            ends = self.explore(s1, body)
        finally:
            self.cmp, self.method = old
        val = None
        for e, kind, x in ends:
            if kind != 'next':
                raise Unsupported('early exit')
            new = e.ev[len(s1.ev):]
            sv, self.s = self.s, e
            if self.holds(isin):
                if new:
                    raise Unsupported('accumulator')
            elif self.holds(z3.Not(isin)):
                if len(new) != 1 or new[0][0] != 'append' or not isinstance(new[0][1], z3.ArithRef):
                    raise Unsupported('accumulator')
                if val is not None and not self.eqi(val, new[0][1]):
                    raise Unsupported('accumulator')
                val = new[0][1]
            else:
                raise Unsupported('accumulator')
            self.s = sv
        if val is None or any(not isinstance(t, z3.ArithRef) or not z3.simplify(t).eq(z3.simplify(val)) for t in tested):
            raise Unsupported('accumulator')
        self.deadvars(st, s0)
        s0.env[nm] = self.mkdist(p, kid, val, False)


CALLS = {}        # call-site contracts: qual -> fn(vf, f, args, kw)


class Acc:
    """a list of distinct values under construction"""


class AccTest(Exception):
    pass


def consts(e):
    out, seen, todo = [], set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() == 0:
                out.append(x)
            todo += x.children()
    return out


def onlykid(c, kid, base):
    """no unknown introduced by the loop body other than the term itself"""
    for x in consts(c):
        n = str(x)
        if not x.eq(kid) and '!' in n and n.rsplit('!', 1)[1].isdigit() and int(n.rsplit('!', 1)[1]) > base:
            return False
    return True


def sum0(segs):
    n = 0
    for s in segs:
        n = n + (1 if s[0] == 'el' else s[1])
    return n


def asb(c):
    return z3.BoolVal(c) if isinstance(c, bool) else c


def stores(nodes):
    return {n.id for x in nodes for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}


def subst(v, i, j):
    """the value v with the loop index i replaced by j"""
    if isinstance(v, z3.ExprRef):
        return conc(z3.substitute(v, (i, j))) if isinstance(v, z3.ArithRef) else z3.substitute(v, (i, j))
    if isinstance(v, Txt):
        return Txt([(p[0], p[1] if p[0] == 'c' else subst(p[1], i, j)) for p in v.ps])
    if isinstance(v, El):
        return El(tuple(subst(x, i, j) if not isinstance(x, (str, int)) else x for x in v.tag), v.excl)
    if isinstance(v, tuple):
        return tuple(subst(x, i, j) if not isinstance(x, (str, int)) else x for x in v)
    if isinstance(v, Tup):
        return Tup([('el', subst(s[1], i, j)) if s[0] == 'el' else ('var', subst(iv(s[1]), i, j), lambda n, at=s[2]: subst(at(n), i, j), None) for s in v.segs])
    if isinstance(v, ArrEl):
        return ArrEl(v.arr, subst(iv(v.i), i, j))
    if v is None or isinstance(v, (int, bool)):
        return v
    raise Unsupported('element of a comprehension')


BUILTIN = {'str', 'repr', 'len', 'range', 'tuple', 'list', 'print', 'open', 'sorted', 'set', 'frozenset', 'enumerate', 'zip', 'Exception', 'ValueError',
           'isinstance', 'next', 'iter', 'min', 'max'}
MUTATORS = {'add_keyval', 'remove_zero', 'merge', 'set_keyfor', 'pop', 'popitem', 'clear', 'update', 'setdefault', '__setitem__', '__delitem__'}


class FileUnit(Unit):
    """setup(vf) -> (list of argument values, precondition); post(vf, state, kind, value, args) for every end (return / raise)"""
    def __init__(self, qual, setup, post, variant='', at_call=None, search=None, cost=1):
        self.fsetup, self.post, self.search_ = setup, post, search
        if at_call:
            CALLS[qual] = at_call
        super().__init__(qual, None, variant=variant)
        self.cost = cost

    def search(self, *a, **kw):
        return self.search_(*a, **kw)

    def verify(self, contracts):
        t0 = time.time()
        Stats.queries, Stats.time = 0, 0.0
        res = {'unit': self.name, 'qual': self.qual, 'obligations': 0, 'paths': 0, 'assumed': []}
        vf = Vf(self)
        try:
            f = vf.find(self.qual)
            if not isinstance(f, Fun):
                res['signature'] = True
                raise Unsupported('function not found')
            vf.s = St({'__mod__': f.mod}, [], [], [], [], {})
            args, pre = self.fsetup(vf)
            names = [a.arg for a in f.node.args.args]
            nreq = len(names) - len(f.node.args.defaults)
            if not nreq <= len(args) <= len(names):
                res['signature'] = True
                raise Unsupported('signature changed')
            s = vf.s
            s.pc += pre
            s.env.update(zip(names, args))
            if frames(SRC).poly:
                raise Unsupported(frames(SRC).poly)
            for nm, d in zip(names[nreq:], f.node.args.defaults):
                if nm not in s.env:
                    s.env[nm] = vf.ev(d, f.mod)
            if vf.sat() != z3.sat:
                raise Unsupported('precondition is not satisfiable')
            vf.start = s.copy()
            ends = vf.explore(s, lambda: vf.block(f.node.body))
            if not ends:
                raise Unsupported('no path')
            for e, kind, val in ends:
                vf.s = e
                if vf.sat() == z3.unsat:
                    continue
                res['paths'] += 1
                if kind in ('break', 'continue'):
                    raise Unsupported('control flow')
                self.post(vf, e, 'raise' if kind == 'raise' else 'return', val, args)
            res['obligations'] = vf.count
            res['status'] = 'discharged' if vf.count else 'undecided'
        except Failed as x:
            res['status'], res['reason'], res['model'] = 'failed', x.what, x.model
        except Unsupported as x:
            res['status'], res['reason'] = 'undecided', 'unsupported: ' + str(x)[:300]
        except (AttributeError, TypeError, KeyError, IndexError, ValueError, z3.Z3Exception, RecursionError, Ctl, Infeasible, AccTest) as x:
            import traceback
            res['status'], res['reason'] = 'undecided', f'engine: {type(x).__name__}: {x} ' + traceback.format_exc()[-700:]
        res['used'], res['inlined'] = sorted(vf.used), sorted(vf.inlined)
        res['queries'], res['solver_s'], res['time'] = Stats.queries, round(Stats.time, 3), round(time.time() - t0, 2)
        return res
