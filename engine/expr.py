"""Canonical symbolic arithmetic.

``E`` is an immutable sum of monomials with rational coefficients.  A monomial is a product of
*bases* raised to exponents; an exponent is itself an ``E`` (a constant in the simple case).
Bases: symbols (``Sym``), small integers used with symbolic exponents (``Num``: -1 and primes),
sums used with a negative or symbolic exponent (``SumB``), factorials (``Fact``) and applications of
uninterpreted functions (``Fn``).
"""
from fractions import Fraction
from functools import lru_cache
import math
import z3

_INTERN = {}


class Base:
    __slots__ = ('kind', 'key', 'args', 'isint', 'z')

    def __new__(cls, kind, key, args=(), isint=True):
        if kind in 'JQ' and key[-1] != kind:
            key += ':' + kind       # keys name composite terms: bases of different kinds must differ in them
        k = (kind, key, isint)
        b = _INTERN.get(k)
        if b is None:
            b = object.__new__(cls)
            b.kind, b.key, b.args, b.isint, b.z = kind, key, args, isint, None
            _INTERN[k] = b
        return b

    def __repr__(self):
        return self.key

    def __lt__(self, o):
        return (self.kind, self.key) < (o.kind, o.key)


def _mkey(m):
    return tuple((b.kind, b.key, x if isinstance(x, Fraction) else repr(x)) for b, x in m)


class E:
    __slots__ = ('t', '_r', '_h')

    def __init__(self, t):
        self.t = t          # dict: mono -> Fraction ; mono = tuple((Base, exp)) sorted; exp Fraction|E
        self._r = None
        self._h = None

    # ---- constructors
    @staticmethod
    def const(c):
        c = Fraction(c)
        return E({(): c}) if c else ZERO

    @staticmethod
    def base(b):
        return E({((b, ONEF),): ONEF})

    # ---- structure
    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def cval(self):
        return self.t.get((), Fraction(0))

    def __repr__(self):
        if self._r is None:
            if not self.t:
                self._r = '0'
            else:
                ps = []
                for m, c in sorted(self.t.items(), key=lambda mc: _mkey(mc[0])):
                    f = '*'.join(b.key if x == 1 else f'{b.key}^({x})' for b, x in m)
                    if not m:
                        ps.append(str(c))
                    elif c == 1:
                        ps.append(f)
                    elif c == -1:
                        ps.append('-' + f)
                    else:
                        ps.append(f'{c}*{f}')
                self._r = ' + '.join(ps)
        return self._r

    def __eq__(self, o):
        return isinstance(o, E) and (self is o or repr(self) == repr(o))

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        if self._h is None:
            self._h = hash(repr(self))
        return self._h

    # ---- arithmetic
    def __add__(self, o):
        o = toE(o)
        if not o.t:
            return self
        if not self.t:
            return o
        d = dict(self.t)
        for m, c in o.t.items():
            s = d.get(m, 0) + c
            if s:
                d[m] = s
            else:
                d.pop(m, None)
        return E(d)
    __radd__ = __add__

    def __neg__(self):
        return E({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-toE(o))

    def __rsub__(self, o):
        return toE(o) - self

    def __mul__(self, o):
        o = toE(o)
        if not self.t or not o.t:
            return ZERO
        if len(o.t) == 1 and () in o.t:
            c = o.t[()]
            return self if c == 1 else E({m: v * c for m, v in self.t.items()})
        if len(self.t) == 1 and () in self.t:
            c = self.t[()]
            return o if c == 1 else E({m: v * c for m, v in o.t.items()})
        d = {}
        extra = None
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m, c, rest = mono_mul(m1, m2)
                c = c * c1 * c2
                if rest is not None:
                    r = E({m: c}) * rest
                    extra = r if extra is None else extra + r
                    continue
                s = d.get(m, 0) + c
                if s:
                    d[m] = s
                else:
                    d.pop(m, None)
        r = E(d)
        return r if extra is None else r + extra
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * powE(toE(o), E.const(-1))

    def __rtruediv__(self, o):
        return toE(o) / self

    def __pow__(self, o):
        return powE(self, toE(o))

    # ---- queries
    def bases(self, acc=None):
        acc = set() if acc is None else acc
        for m in self.t:
            for b, x in m:
                if b not in acc:
                    acc.add(b)
                    for a in b.args:
                        _val_bases(a, acc)
                if isinstance(x, E):
                    x.bases(acc)
        return acc

    def subst(self, mp):
        """mp: dict Base -> E (symbols)."""
        if not mp or not self.t:
            return self
        bs = self.bases()
        if not any(b in bs for b in mp):
            return self
        tot = ZERO
        for m, c in self.t.items():
            try:
                r = mono_subst(m, c, mp)
            except ZeroDivisionError:
                r = mono_subst(*joined(m, c), mp)
            tot = tot + r
        return tot

    def lin(self, b):
        """coefficient decomposition self = a*b + r with b not in a, r; or None"""
        a, r = ZERO, ZERO
        for m, c in self.t.items():
            hit = [x for (bb, x) in m if bb is b]
            if hit:
                if hit[0] != 1:
                    return None
                a = a + E({tuple((bb, x) for bb, x in m if bb is not b): c})
            else:
                r = r + E({m: c})
        if b in a.bases() or b in r.bases():
            return None
        return a, r


ONEF = Fraction(1)
ZERO = E({})
ONE = E({(): ONEF})


def _val_bases(a, acc):
    if isinstance(a, E):
        a.bases(acc)
    elif isinstance(a, (tuple, list)):
        for x in a:
            _val_bases(x, acc)
    elif hasattr(a, 'bases'):
        a.bases(acc)


def val_subst(a, mp):
    if isinstance(a, E):
        return a.subst(mp)
    if isinstance(a, tuple):
        return tuple(val_subst(x, mp) for x in a)
    if isinstance(a, list):
        return [val_subst(x, mp) for x in a]
    if hasattr(a, 'subst'):
        return a.subst(mp)
    return a


def val_bases(a):
    acc = set()
    _val_bases(a, acc)
    return acc


def toE(x):
    if isinstance(x, E):
        return x
    if isinstance(x, bool):
        return E.const(int(x))
    if isinstance(x, (int, Fraction)):
        return E.const(x)
    if isinstance(x, float):
        f = Fraction(x)
        if f.denominator & (f.denominator - 1) == 0 and f.denominator <= 1024:
            return E.const(f)
        raise TypeError('float literal')
    raise TypeError(f'not a number: {type(x).__name__}')


def Sym(name, isint=True):
    return E.base(Base('s', name, (), isint))


def symbase(name, isint=True):
    return Base('s', name, (), isint)


def mono_subst(m, c, mp):
    r = E.const(c)
    for b, x in m:
        x2 = x.subst(mp) if isinstance(x, E) else E.const(x)
        r = r * powE(base_subst(b, mp), x2)
    return r


def joined(m, c):
    """factors belonging to a factorial put back: a!^x (a+1)^x = (a+1)!^x also where a = -1"""
    items, c = dict(m), Fraction(c)
    for b, x in m:
        if b.kind != 'f' or isinstance(x, E) or x.denominator != 1:
            continue
        core, j = b.args[0], 0
        while j < 12:
            c0, p = primitive(core + E.const(j + 1))
            u = Base('u', f'[{p!r}]', (p,))
            e = items.get(u)
            if len(p.t) == 1 or e is None or isinstance(e, E) or e * x < 0 or abs(e) < abs(x) or not c0.is_const():
                break
            items[u] = e - x
            c *= c0.cval() ** int(-x)
            j += 1
        if j:
            a = core + E.const(j)
            del items[b]
            items[Base('f', f'({a!r})!', (a,), True)] = x
    return tuple((b, x) for b, x in items.items() if isinstance(x, E) or x != 0), c


def FactE(a):
    a = toE(a)
    if a.is_const():
        v = a.cval()
        if v.denominator == 1 and 0 <= v <= 400:
            r = 1
            for i in range(2, int(v) + 1):
                r *= i
            return E.const(r)
    # canonical: strip the positive part of the constant: (x+c)! = x! (x+1)...(x+c) ; (x-c)! = x!/(x(x-1)..)
    c = a.cval()
    if c.denominator == 1 and c != 0 and abs(c) <= 12 and any(x > 0 for m, x in a.t.items() if m):
        core = a - E.const(c)
        r = FactE(core)
        c = int(c)
        if c > 0:
            for i in range(1, c + 1):
                r = r * (core + E.const(i))
        else:
            for i in range(0, -c):
                r = r / (core - E.const(i))
        return r
    return E.base(Base('f', f'({a!r})!', (a,), True))


def FnE(name, *args, isint=False):
    return E.base(Base('a', f'{name}({", ".join(map(repr, args))})', tuple(args) + (('#', name, isint),), isint))


def ind(c):
    """indicator of a condition (multilinear in indicators of atomic conditions)"""
    if c.op == 'true':
        return ONE
    if c.op == 'false':
        return ZERO
    if c.op == 'not':
        return ONE - ind(c.a[0])
    if c.op == 'and':
        r = ONE
        for x in c.a:
            r = r * ind(x)
        return r
    if c.op == 'or':
        r = ONE
        for x in c.a:
            r = r * (ONE - ind(x))
        return ONE - r
    if c.op == 'lt0':
        return ONE - ind(Cond('le0', (-c.a[0],)))
    return FnE('ind', c, isint=True)


def base_subst(b, mp):
    if b in mp:
        return mp[b]
    if b.kind == 's' or b.kind == 'n':
        return E.base(b)
    if b.kind == 'f':
        return FactE(b.args[0].subst(mp))
    if b.kind == 'u':
        return b.args[0].subst(mp)
    if b.kind == 'a':
        tag = b.args[-1]
        args = [val_subst(a, mp) for a in b.args[:-1]]
        if tag[1] in ('blen', 'bat') and not args[0].at:
            from .sums import counted
            if not counted(args[0]):
                return FnE(tag[1], *args, isint=True)
            tr = args[0].tr
            if tag[1] == 'blen':
                return E.const(len(tr))
            if args[1].is_const() and 0 <= args[1].cval() < len(tr):
                e, c = tr[int(args[1].cval())], int(args[2].cval())
                return e[c] if c < 3 else e[0][c - 3]
        if tag[1] == 'tlen':
            from .sums import tlen
            return tlen(args[0])
        if tag[1] == 'bval':
            from .sums import bval
            return bval(*args)
        if tag[1] == 'bsum':
            from .sums import bsum
            return bsum(*args)
        if tag[1] == 'mod':
            return ModE(*args)
        if tag[1] == 'at' and hasattr(args[0], 'at'):
            return args[0].at(args[1])
        if tag[1] == 'ind':
            return ind(args[0])
        if tag[1] in ('len', 'last') and len(args) == 1 and hasattr(args[0], 'p'):
            q = args[0]
            if tag[1] == 'len' and not (len(q.p) == 1 and q.p[0][0] == 'q'):
                return q.length()
            if tag[1] == 'last' and q.p and q.p[-1][0] == 'e':
                return q.p[-1][1]
        if all(repr(x) == repr(y) for x, y in zip(args, b.args)):
            return E.base(b)
        return FnE(tag[1], *args, isint=tag[2])
    raise AssertionError(b.kind)


def _norm_exp_num(p, x):
    """exponent of numeric base p (=-1 or prime) as E -> (Fraction coefficient factor, exp or None)"""
    if isinstance(x, Fraction):
        x = E.const(x)
    if p == -1:
        # (-1)^x: reduce integer coefficients mod 2 (all symbols integer valued)
        t = {}
        fac = 1
        for m, c in x.t.items():
            if c.denominator != 1:
                t[m] = c
                continue
            if m == ():
                if int(c) % 2:
                    fac = -fac
                continue
            mm = m
            if all(b.isint and isinstance(e, Fraction) and e.denominator == 1 and e >= 1 for b, e in m):
                mm = tuple((b, ONEF) for b, e in m)     # parity of b^e = parity of b
            if all(b.isint for b, e in m):
                t[mm] = (t.get(mm, 0) + c) % 2
            else:
                t[m] = c
        t = {m: c for m, c in t.items() if c}
        x = E(t)
        return Fraction(fac), (x if t else None)
    c = x.cval()
    if c.denominator == 1 and c:
        x = x - E.const(c)
        return Fraction(p) ** int(c), (x if x.t else None)
    return ONEF, (x if x.t else None)


def mono_mul(m1, m2):
    d = {}
    for b, x in m1:
        d[b] = x
    for b, x in m2:
        if b in d:
            y = d[b]
            if isinstance(x, Fraction) and isinstance(y, Fraction):
                d[b] = x + y
            else:
                s = toE(x) + toE(y)
                d[b] = s.cval() if s.is_const() else s
        else:
            d[b] = x
    coef = ONEF
    rest = None
    out = []
    for b, x in d.items():
        if isinstance(x, Fraction) and x == 0:
            continue
        if b.kind == 'a' and b.key.startswith('ind(') and isinstance(x, Fraction) and x > 1:
            x = ONEF
        if b.kind == 'n':
            f, x = _norm_exp_num(int(b.key), x)
            coef *= f
            if x is None:
                continue
            out.append((b, x))
        elif b.kind == 'u':
            # sum base: split integer constant positive part -> expand
            if isinstance(x, Fraction):
                if x.denominator == 1 and x > 0:
                    r = _ipow(b.args[0], int(x))
                    rest = r if rest is None else rest * r
                    continue
                if x > 1:
                    n = int(x)
                    r = _ipow(b.args[0], n)
                    rest = r if rest is None else rest * r
                    x = x - n
                out.append((b, x))
            else:
                c = x.cval()
                n = c.numerator // c.denominator
                if n > 0:
                    r = _ipow(b.args[0], n)
                    rest = r if rest is None else rest * r
                    x = x - E.const(n)
                out.append((b, x))
        else:
            out.append((b, x))
    out.sort(key=lambda bx: (bx[0].kind, bx[0].key))
    return tuple(out), coef, rest


def _ipow(a, n):
    r = ONE
    for _ in range(n):
        r = r * a
    return r


def primitive(a):
    """a (multi-term) = content * prim with canonical prim"""
    items = sorted(a.t.items(), key=lambda mc: _mkey(mc[0]))
    from math import gcd
    g = 0
    l = 1
    for _, c in items:
        g = gcd(g, c.numerator)
        l = l * c.denominator // gcd(l, c.denominator)
    cont = Fraction(g, l)
    lead = a.t.get((), None)
    if lead is None:
        lead = items[0][1]
    if lead < 0:
        cont = -cont
    # common symbol factors with constant exponents
    common = None
    for m, _ in items:
        dm = {b: x for b, x in m if isinstance(x, Fraction)}
        if common is None:
            common = dm
        else:
            common = {b: min(x, dm[b]) for b, x in common.items() if b in dm}
    cm = tuple(sorted(((b, x) for b, x in (common or {}).items() if x), key=lambda bx: (bx[0].kind, bx[0].key)))
    content = E({cm: cont})
    if not cm:
        prim = E({m: c / cont for m, c in a.t.items()})
    else:
        inv = E({tuple((b, -x) for b, x in cm): 1 / cont})
        prim = a * inv
    return content, prim


@lru_cache(maxsize=None)
def _factor(n):
    out = []
    p = 2
    while p * p <= n:
        k = 0
        while n % p == 0:
            n //= p
            k += 1
        if k:
            out.append((p, k))
        p += 1
    if n > 1:
        out.append((n, 1))
    return tuple(out)


def numpow(c, x):
    """c: Fraction, x: E non-constant-integer exponent"""
    r = ONE
    if c < 0:
        f, y = _norm_exp_num(-1, x)
        r = r * E({(((Base('n', '-1'), y),) if y is not None else ()): f})
        c = -c
    for part, sgn in ((c.numerator, 1), (c.denominator, -1)):
        if part == 0:
            return FnE('pow', E.const(0), x)
        for p, k in _factor(part):
            f, y = _norm_exp_num(p, x * E.const(k * sgn))
            r = r * E({(((Base('n', str(p)), y),) if y is not None else ()): f})
    return r


def powE(a, x):
    if x.is_const():
        c = x.cval()
        if c.denominator == 1:
            n = int(c)
            if n == 0:
                return ONE
            if not a.t:
                if n < 0:
                    raise ZeroDivisionError
                return ZERO
            if len(a.t) == 1:
                (m, cc), = a.t.items()
                d = []
                coef = cc ** n
                r = None
                for b, y in m:
                    yn = y * n
                    if b.kind in ('n', 'u'):
                        q, f, rest = mono_mul(((b, yn if isinstance(yn, Fraction) else yn),), ())
                        e = E({q: f})
                        e = e if rest is None else e * rest
                        r = e if r is None else r * e
                    else:
                        d.append((b, yn))
                e = E({tuple(d): coef})
                return e if r is None else e * r
            if n > 0:
                if n <= 8:
                    return _ipow(a, n)
                c0, p = primitive(a)
                return powE(c0, x) * E({((Base('u', f'[{p!r}]', (p,)), Fraction(n)),): ONEF})
            c0, p = primitive(a)
            if len(p.t) == 1:
                return powE(c0 * p, x)
            return powE(c0, x) * E({((Base('u', f'[{p!r}]', (p,)), Fraction(n)),): ONEF})
    if not a.t:
        if x.is_const() and x.cval() > 0:
            return ZERO
        return FnE('pow', ZERO, x)
    # split integer constant part of symbolic exponent
    if not x.is_const():
        c = x.cval()
        n = c.numerator // c.denominator if c.denominator == 1 else 0
        if n:
            return powE(a, x - E.const(n)) * powE(a, E.const(n))
    if len(a.t) == 1:
        (m, cc), = a.t.items()
        r = numpow(cc, x) if cc != 1 else ONE
        for b, y in m:
            yy = toE(y) * x
            e = yy.cval() if yy.is_const() else yy
            q, f, rest = mono_mul(((b, e),), ())
            p = E({q: f})
            r = r * (p if rest is None else p * rest)
        return r
    c0, p = primitive(a)
    if len(p.t) == 1:
        return powE(c0 * p, x)
    e = x.cval() if x.is_const() else x
    q, f, rest = mono_mul(((Base('u', f'[{p!r}]', (p,)), e),), ())
    r = E({q: f})
    r = r if rest is None else r * rest
    return powE(c0, x) * r if not (c0.is_const() and c0.cval() == 1) else r


def is_zero(e):
    """Identity test: e == 0 as a rational function (denominators cleared)."""
    if not e.t:
        return True
    for _ in range(12):
        den = {}
        for m in e.t:
            for b, x in m:
                if b.kind != 'n':
                    c = x if isinstance(x, Fraction) else x.cval()
                    if c < 0 and c.denominator == 1:
                        den[b] = max(den.get(b, 0), -c)
        if not den:
            break
        for b, c in den.items():
            tot = ZERO
            for m, v in e.t.items():
                q, f, rest = mono_mul(m, ((b, c),))
                p = E({q: f * v})
                tot = tot + (p if rest is None else p * rest)
            e = tot
        if not e.t:
            return True
    return not e.t


# ---------------------------------------------------------------- z3
_Z = {}


def zsym(name, isint):
    k = (name, isint)
    if k not in _Z:
        _Z[k] = z3.Int(name) if isint else z3.Real(name)
    return _Z[k]


def to_z3(e):
    """z3 arithmetic term; non-polynomial pieces become opaque constants named by their canonical form."""
    if isinstance(e, (int, Fraction)):
        e = E.const(e)
    tot = None
    for m, c in e.t.items():
        fs = []
        for b, x in m:
            if isinstance(x, Fraction) and x.denominator == 1 and x >= 1 and x <= 4 and b.kind in ('s', 'a', 'f', 'u'):
                zb = zbase(b)
                fs.extend([zb] * int(x))
            else:
                fs.append(zsym(f'{b.key}^({x})', False))
        if c.denominator == 1:
            allint = all(f.sort() == z3.IntSort() for f in fs)
            t = z3.IntVal(int(c)) if allint else z3.RealVal(int(c))
        else:
            t = z3.RealVal(c)
        first = True
        if c == 1 and fs:
            t = fs[0]
            for f in fs[1:]:
                t = t * f
        else:
            for f in fs:
                t = t * f
        tot = t if tot is None else tot + t
    return z3.IntVal(0) if tot is None else tot


def zbase(b):
    if b.kind == 's':
        return zsym(b.key, b.isint)
    if b.kind == 'a':
        tag = b.args[-1]
        if tag[1] == 'mod' and len(b.args) == 3:
            za = to_z3(b.args[0])
            if za.sort() == z3.IntSort() and isinstance(b.args[1], E) and b.args[1].is_const():
                return za % int(b.args[1].cval())
        if tag[1] == 'ind' and len(b.args) == 2:
            return z3.If(b.args[0].z(), z3.IntVal(1), z3.IntVal(0))
    return zsym(b.key, b.isint)


def integral(e):
    """multiply by the common denominator (keeps integer expressions in integer sort)"""
    if isinstance(e, E):
        d = 1
        for c in e.t.values():
            d = d * c.denominator // math.gcd(d, c.denominator)
        if d != 1:
            return e * E.const(d)
    return e


def ModE(a, m):
    """a mod m for an integer-valued a and a positive constant m"""
    a, m = toE(a), toE(m)
    k = m.cval()
    r = ZERO
    for mo, c in a.t.items():
        if not mo:
            if c.denominator != 1:
                return FnE('mod', a, m, isint=True)
            c = c % k
        elif c.denominator == 1 and all(b.isint and x == int(x) and x > 0 for b, x in mo):
            c = c % k
        else:
            return FnE('mod', a, m, isint=True)
        if c:
            r = r + E({mo: c})
    if r.is_const():
        return r
    return FnE('mod', r, m, isint=True)


class Cond:
    """atomic / compound condition with canonical representation"""
    __slots__ = ('op', 'a', '_r', '_z')

    def __init__(self, op, a):
        self.op, self.a = op, a
        self._r = None
        self._z = None

    def __repr__(self):
        if self._r is None:
            self._r = f'{self.op}({", ".join(map(repr, self.a))})'
        return self._r

    def __eq__(self, o):
        return isinstance(o, Cond) and repr(self) == repr(o)

    def __hash__(self):
        return hash(repr(self))

    def z(self):
        if self._z is None:
            op, a = self.op, self.a
            if op == 'eq0':
                self._z = to_z3(integral(a[0])) == 0
            elif op == 'le0':
                self._z = to_z3(integral(a[0])) <= 0
            elif op == 'lt0':
                self._z = to_z3(integral(a[0])) < 0
            elif op == 'not':
                self._z = z3.Not(a[0].z())
            elif op == 'and':
                self._z = z3.And(*[x.z() for x in a])
            elif op == 'or':
                self._z = z3.Or(*[x.z() for x in a])
            elif op == 'atom':
                self._z = z3.Bool(repr(self))
            elif op == 'true':
                self._z = z3.BoolVal(True)
            elif op == 'false':
                self._z = z3.BoolVal(False)
        return self._z

    def subst(self, mp):
        if self.op in ('true', 'false'):
            return self
        if self.op in ('eq0', 'le0', 'lt0'):
            return mkcmp(self.op, self.a[0].subst(mp))
        xs = tuple(val_subst(x, mp) for x in self.a)
        if self.op == 'and':
            return c_and(*xs)
        if self.op == 'or':
            return c_or(*xs)
        if self.op == 'not':
            return c_not(xs[0])
        return Cond(self.op, xs)

    def bases(self, acc=None):
        acc = set() if acc is None else acc
        for x in self.a:
            _val_bases(x, acc)
        return acc


TRUE = Cond('true', ())
FALSE = Cond('false', ())


def mkcmp(op, e):
    if e.is_const():
        v = e.cval()
        return TRUE if (v == 0 if op == 'eq0' else v <= 0 if op == 'le0' else v < 0) else FALSE
    if op == 'eq0':
        _, e = primitive(e) if len(e.t) > 1 else (None, e)
    return Cond(op, (e,))


def c_eq(a, b):
    return mkcmp('eq0', toE(a) - toE(b))


def c_le(a, b):
    return mkcmp('le0', toE(a) - toE(b))


def c_lt(a, b):
    return mkcmp('lt0', toE(a) - toE(b))


def c_not(c):
    if c is TRUE or c.op == 'true':
        return FALSE
    if c.op == 'false':
        return TRUE
    if c.op == 'not':
        return c.a[0]
    return Cond('not', (c,))


def c_and(*cs):
    out = []
    for c in cs:
        if c.op == 'false':
            return FALSE
        if c.op == 'true':
            continue
        if c.op == 'and':
            out.extend(c.a)
        else:
            out.append(c)
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else Cond('and', tuple(out))


def c_or(*cs):
    out = []
    for c in cs:
        if c.op == 'true':
            return TRUE
        if c.op == 'false':
            continue
        out.append(c)
    if not out:
        return FALSE
    return out[0] if len(out) == 1 else Cond('or', tuple(out))
