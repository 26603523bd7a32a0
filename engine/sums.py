"""Formal sums: the denotation of a Poly (or of a number defined by loops), and their equality.

A ``Term`` stands for   SUM over its binders, where dom holds, of  coef * X^key,
with two kinds of binders: integer variables and *generic monomials of an opaque polynomial* (binding the
monomial's exponents; the monomial's coefficient is an implicit factor).  ``F`` is a list of terms.
"""
import itertools, math
from fractions import Fraction
import z3
from .expr import *
from .expr import _val_bases

_cnt = itertools.count()


def reset_names():
    global _cnt
    _cnt = itertools.count()


def fresh(prefix):
    return f'{prefix}!{next(_cnt)}'


class Undecided(Exception):
    pass


# ------------------------------------------------------------------ key components that are not integers
class SeqV:
    """Sequence of integers of symbolic length: atoms ('q', Base, 'all'|'init'), ('e', E), ('r', E, E count)."""
    __slots__ = ('p',)

    def __init__(self, parts):
        out = []
        for x in parts:
            if x[0] == 'r':
                if x[2].is_const():
                    out.extend([('e', x[1])] * max(0, int(x[2].cval())))
                    continue
                if out and out[-1][0] == 'r' and out[-1][1] == x[1]:
                    out[-1] = ('r', x[1], out[-1][2] + x[2])
                    continue
            if x[0] == 'e' and out and out[-1][0] == 'q' and out[-1][2] == 'init' and x[1] == last_of(out[-1][1]):
                out[-1] = ('q', out[-1][1], 'all')
                continue
            out.append(x)
        self.p = tuple(out)

    def __repr__(self):
        return '<' + ','.join(f'{x[1].key}:{x[2]}' if x[0] == 'q' else repr(x[1]) if x[0] == 'e'
                              else f'{x[1]!r}x({x[2]!r})' for x in self.p) + '>'

    def __eq__(self, o):
        return isinstance(o, SeqV) and repr(self) == repr(o)

    def __hash__(self):
        return hash(repr(self))

    def bases(self, acc=None):
        acc = set() if acc is None else acc
        for x in self.p:
            if x[0] == 'q':
                acc.add(x[1])
            else:
                x[1].bases(acc)
                if x[0] == 'r':
                    x[2].bases(acc)
        return acc

    def subst(self, mp):
        out = []
        for x in self.p:
            if x[0] == 'q':
                if x[1] in mp:
                    v = mp[x[1]]
                    if x[2] == 'all':
                        out.extend(v.p)
                    elif v.p:           # ()[:-1] == ()
                        out.extend(v.init().p)
                else:
                    out.append(x)
            elif x[0] == 'e':
                out.append(('e', x[1].subst(mp)))
            else:
                out.append(('r', x[1].subst(mp), x[2].subst(mp)))
        return SeqV(out)

    def length(self):
        n = ZERO
        for x in self.p:
            if x[0] == 'q':
                n = n + len_of(x[1])
                if x[2] == 'init':
                    n = n - 1
            elif x[0] == 'e':
                n = n + 1
            else:
                n = n + x[2]
        return n

    def concat(self, o):
        return SeqV(self.p + o.p)

    def last(self):
        x = self.p[-1] if self.p else None
        if x and x[0] == 'e':
            return x[1]
        if x and x[0] == 'q' and x[2] == 'all':
            return last_of(x[1])
        raise Undecided('last element of sequence')

    def init(self):
        x = self.p[-1] if self.p else None
        if x and x[0] == 'e':
            return SeqV(self.p[:-1])
        if x and x[0] == 'q' and x[2] == 'all':
            return SeqV(self.p[:-1] + (('q', x[1], 'init'),))
        raise Undecided('init of sequence')

    def explicit(self):
        return all(x[0] == 'e' for x in self.p)


def len_of(b):
    return FnE('len', SeqV((('q', b, 'all'),)), isint=True)


def last_of(b):
    return FnE('last', SeqV.__new__(SeqV)._raw((('q', b, 'all'),)), isint=True)


def _raw(self, p):
    self.p = p
    return self


SeqV._raw = _raw


class Bag:
    """Denotation of a tuple of triples (n1,n2,i): the product of (n1*k1+n2*k2)^(-i)."""
    __slots__ = ('at', 'tr')

    def __init__(self, atoms, triples):
        d = {}
        for n1, n2, i in triples:
            k = (n1, n2)
            d[k] = d.get(k, ZERO) + i
        self.at = tuple(sorted(atoms, key=lambda b: b.key))
        self.tr = tuple(sorted(((a, b, i) for (a, b), i in d.items() if i.t), key=repr))

    def __repr__(self):
        return 'T{' + ','.join([b.key for b in self.at] + [repr(t) for t in self.tr]) + '}'

    def __eq__(self, o):
        return isinstance(o, Bag) and repr(self) == repr(o)

    def __hash__(self):
        return hash(repr(self))

    def bases(self, acc=None):
        acc = set() if acc is None else acc
        acc.update(self.at)
        for t in self.tr:
            _val_bases(t, acc)
        return acc

    def subst(self, mp):
        at, tr = [], [val_subst(t, mp) for t in self.tr]
        for b in self.at:
            if b in mp:
                at.extend(mp[b].at)
                tr.extend(mp[b].tr)
            else:
                at.append(b)
        return Bag(at, tr)

    def mul(self, o):
        return Bag(self.at + o.at, self.tr + o.tr)

    def over(self, o):
        assert not o.at
        return Bag(self.at, self.tr + tuple((a, b, -i) for a, b, i in o.tr))

    def pure(self):
        return len(self.at) == 1 and not self.tr


class VecV:
    """tuple of symbolic length: elem is an E in the canonical index IDX"""
    __slots__ = ('length', 'elem', '_r')

    def __init__(self, length, elem):
        self.length, self.elem = length, elem
        self._r = None

    def __repr__(self):
        if self._r is None:
            self._r = f'vec[{self.length!r}; {self.elem!r}]'
        return self._r

    def __eq__(self, o):
        return isinstance(o, VecV) and repr(self) == repr(o)

    def __hash__(self):
        return hash(repr(self))

    def bases(self, acc=None):
        acc = set() if acc is None else acc
        self.length.bases(acc)
        self.elem.bases(acc)
        acc.discard(IDX)
        return acc

    def subst(self, mp):
        return VecV(self.length.subst(mp), self.elem.subst(mp))

    def at(self, i):
        return self.elem.subst({IDX: toE(i)})


IDX = symbase('#', True)


class VRef:
    """opaque tuple of integers"""
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = b

    def __repr__(self):
        return self.b.key

    def bases(self, acc=None):
        acc = set() if acc is None else acc
        acc.add(self.b)
        return acc

    def subst(self, mp):
        return mp.get(self.b, self)


def vec_of(b):
    return VecV(ARITY, FnE('at', VRef(b), E.base(IDX), isint=True))


ARITY = Sym('arity', True)


# ------------------------------------------------------------------ atoms
class PAtom:
    __slots__ = ('name', 'args', 'shape', '_r')

    def __init__(self, name, args, shape):
        self.name, self.args, self.shape = name, tuple(args), tuple(shape)
        self._r = None

    def __repr__(self):
        if self._r is None:
            self._r = f'{self.name}({", ".join(map(repr, self.args))})'
        return self._r

    def bases(self, acc=None):
        acc = set() if acc is None else acc
        acc |= val_bases(self.args) - {IDX}
        return acc

    def subst(self, mp):
        if not self.args:
            return self
        return PAtom(self.name, tuple(val_subst(a, mp) for a in self.args), self.shape)


TAG_OF = {}         # the polynomial that a generic key k!N ranges over


def gen_key(shape, tag):
    """generic key variables for a shape; returns (key values, bases)"""
    key, bs = [], []
    if shape == ('V',):
        b = Base('v', tag + '.V')
        return vec_of(b), (b,)
    for i, s in enumerate(shape):
        nm = f'{tag}.{i}'
        if s == 'i':
            b = symbase(nm, True)
            bs.append(b)
            key.append(E.base(b))
        elif s == 'q':
            b = Base('q', nm)
            bs.append(b)
            key.append(SeqV((('q', b, 'all'),)))
        elif s == 'T':
            b = Base('T', nm)
            bs.append(b)
            key.append(Bag((b,), ()))
        elif s in ('J', 'Q'):               # the rest of the key: pairs (n, m), or (n1, n2, n3, m) = a label and its multiplicity
            b = Base(s, nm)
            bs.append(b)
            key.append(Bag((b,), ()))
        elif isinstance(s, int):            # tuple of s integers
            sub = []
            for j in range(s):
                b = symbase(f'{nm}.{j}', True)
                bs.append(b)
                sub.append(E.base(b))
            key.append(tuple(sub))
        else:
            raise AssertionError(s)
    return tuple(key), tuple(bs)


def base_value(b):
    if b.kind == 'q':
        return SeqV((('q', b, 'all'),))
    if b.kind in 'TJQ':
        return Bag((b,), ())
    if b.kind == 'v':
        return vec_of(b)
    return E.base(b)


def counted(bag):
    """is the number of entries known: no unknown part, and no two entries that may coincide or cancel"""
    if bag.at:
        return False
    if len(bag.tr) <= 1:
        return all(t[2].is_const() for t in bag.tr)
    return all(x.is_const() for t in bag.tr for y in t for x in (y if isinstance(y, tuple) else (y,)))


def blen(bag):
    if counted(bag):
        return E.const(len(bag.tr))
    return FnE('blen', bag, isint=True)


def tlen(bag):
    """length of a tuple of triples in a key (never empty: 1 is written ((0,0,0),))"""
    if counted(bag):
        return E.const(max(1, len(bag.tr)))
    return FnE('tlen', bag, isint=True)


def bval(bag, k1, k2):
    """the number the tuple of triples stands for"""
    r = ONE
    for b in bag.at:
        r = r * FnE('bval', Bag((b,), ()), k1, k2)
    for a, b, i in bag.tr:
        r = r * powE(a * k1 + b * k2, -i)
    return r


def bsum(bag):
    """the sum of the multiplicities of a map n -> m"""
    r = ZERO
    for b in bag.at:
        r = r + FnE('bsum', Bag((b,), ()), isint=True)
    for t in bag.tr:
        r = r + t[2]
    return r


def bat(bag, i, c):
    return FnE('bat', bag, toE(i), E.const(c), isint=True)


ATOM_INV = {}       # atom name -> fn(key) -> conditions that every key of the atom satisfies (proved where the atom is defined)


NONNEG_AT = {}      # atom name -> components that are never negative, in every key
FIXED_AT = {}       # atom name -> {component: fn(args)}: components with the same value in every key


def pb_key(a, bs):
    key, i = [], 0
    for s in a.shape:
        if isinstance(s, int):
            key.append(tuple(E.base(b) for b in bs[i:i + s]))
            i += s
        else:
            key.append(base_value(bs[i]))
            i += 1
    return tuple(key)


def total_of(cnt, x):
    """SUM over # = 0..cnt-1 of x, or None"""
    one = {b: ONE for b in x.bases() if b.kind == 'a' and b.args[-1][1] == 'ind' and entry_positive(b.args[0])}
    if one:
        x = x.subst(one)
    if IDX not in x.bases():
        return cnt * x
    if len(x.t) == 1:
        (m, c), = x.t.items()
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'a':
            b = m[0][0]
            if b.args[-1][1] == 'bat' and b.args[1] == E.base(IDX) and b.args[2].cval() == 2 and cnt == blen(b.args[0]):
                return bsum(b.args[0]) * E.const(c)
    return None


def entry_positive(c):
    """n >= 1 or m >= 1 for an entry (n, m) of a flat key"""
    if c.op != 'le0':
        return False
    x = ONE - c.a[0]
    if len(x.t) != 1:
        return False
    (m, v), = x.t.items()
    return v == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'a' and m[0][0].args[-1][1] == 'bat' and not m[0][0].args[0].tr and \
        all(b.kind == 'J' or b.kind == 'Q' and m[0][0].args[2].cval() == 2 for b in m[0][0].args[0].at)


def wrapped(a):
    """(never negative, fixed) components of the keys of powers and products of an atom"""
    if a.name == 'pow' and isinstance(a.args[0], PAtom):
        nn, fx = wrapped(a.args[0])
        return nn, {c: v * a.args[1] for c, v in fx.items()}
    if a.name == 'prod' and isinstance(a.args[1], PAtom):
        nn, fx = wrapped(a.args[1])
        fx = {c: total_of(a.args[0], v) for c, v in fx.items()}
        return nn, {c: v for c, v in fx.items() if v is not None}
    return NONNEG_AT.get(a.name, ()), {c: fn(*a.args) for c, fn in FIXED_AT.get(a.name, {}).items()}


LOWER_AT = {}       # atom name -> {component: integer}: lower bounds of components of every key


def lower(a):
    if a.name == 'pow' and isinstance(a.args[0], PAtom):
        return {c: v * a.args[1] for c, v in lower(a.args[0]).items()}
    if a.name == 'prod' and isinstance(a.args[1], PAtom):
        lo = {c: total_of(a.args[0], v) for c, v in lower(a.args[1]).items()}
        return {c: v for c, v in lo.items() if v is not None}
    return {c: E.const(v) for c, v in LOWER_AT.get(a.name, {}).items()}


def inv_conds(pb):
    out = []
    for a, bs in pb:
        lo = lower(a)
        if lo:
            key = pb_key(a, bs)
            out += [c_le(v, key[c]) for c, v in lo.items()]
        nn, fx = wrapped(a)
        if nn or fx:
            key = pb_key(a, bs)
            out += [c_le(ZERO, key[c]) for c in nn] + [c_eq(key[c], v) for c, v in fx.items()]
        g = ATOM_INV.get(a.name)
        if g:
            key = list(pb_key(a, bs))
            cs = g(tuple(key), a.args) if getattr(g, 'with_args', False) else g(tuple(key))
            out += [c for c in cs if c.op != 'true']
    return out


class Term:
    __slots__ = ('pb', 'ib', 'dom', 'coef', 'key')

    def __init__(self, pb, ib, dom, coef, key):
        self.pb = pb        # tuple of (PAtom, bases)
        self.ib = ib        # tuple of Base
        self.dom = dom      # tuple of Cond
        self.coef = coef
        self.key = key

    def __repr__(self):
        s = ''
        for a, bs in self.pb:
            s += f'SUM[{bs[0].key.split(".")[0] if bs else "_"} in {a!r}] '
        if self.ib:
            s += f'SUM[{",".join(b.key for b in self.ib)}] '
        return s + f'({self.coef!r}) X^{self.key!r}' + (f' if {list(self.dom)!r}' if self.dom else '')

    def subst(self, mp):
        dom = tuple(c for c in (d.subst(mp) for d in self.dom) if c.op != 'true')
        if any(c.op == 'false' for c in dom):           # the coefficient need not make sense there
            return Term((), (), (FALSE,), ZERO, self.key)
        return Term(tuple((a.subst(mp), bs) for a, bs in self.pb), self.ib, dom, self.coef.subst(mp), val_subst(self.key, mp))

    def refresh(self):
        """rename all binders"""
        mp = {}
        pb = []
        for a, bs in self.pb:
            tag = fresh('k')
            TAG_OF[tag] = a.name
            nbs = []
            for b in bs:
                nm = tag + '.' + b.key.split('.', 1)[1]
                nb = Base(b.kind, nm, (), b.isint)
                mp[b] = base_value(nb)
                nbs.append(nb)
            pb.append((a, tuple(nbs)))
        ib = []
        for b in self.ib:
            nb = symbase(fresh(b.key.split('!')[0]), True)
            mp[b] = E.base(nb)
            ib.append(nb)
        if not mp:
            return self
        return Term(tuple((a.subst(mp), bs) for a, bs in pb), tuple(ib), tuple(d.subst(mp) for d in self.dom),
                    self.coef.subst(mp), val_subst(self.key, mp))


class F:
    __slots__ = ('ts',)

    def __init__(self, ts):
        self.ts = tuple(t for t in ts if t.coef.t and not any(d.op == 'false' for d in t.dom))

    def __repr__(self):
        return ' + '.join(map(repr, self.ts)) if self.ts else '0'

    def __add__(self, o):
        return F(self.ts + o.ts)

    def __neg__(self):
        return self.scale(E.const(-1))

    def __sub__(self, o):
        return self + (-o)

    def scale(self, e):
        return F(Term(t.pb, t.ib, t.dom, t.coef * e, t.key) for t in self.ts)

    def guard(self, *cs):
        cs = tuple(c for c in cs if c.op != 'true')
        if not cs:
            return self
        return F(Term(t.pb, t.ib, t.dom + cs, t.coef, t.key) for t in self.ts)

    def subst(self, mp):
        return F(t.subst(mp) for t in self.ts)

    def refresh(self):
        return F(t.refresh() for t in self.ts)

    def mapkey(self, fn):
        return F(Term(t.pb, t.ib, t.dom, t.coef, fn(t.key)) for t in self.ts)

    def bases(self, acc=None):
        acc = set() if acc is None else acc
        for t in self.ts:
            b = set()
            for a, _ in t.pb:
                _val_bases(a.args, b)
            for d in t.dom:
                d.bases(b)
            t.coef.bases(b)
            _val_bases(t.key, b)
            for _, bs in t.pb:
                b -= set(bs)
            b -= set(t.ib)
            acc |= b
        return acc


FZERO = F(())


def fmono(coef, key):
    return F((Term((), (), (), toE(coef), key if isinstance(key, VecV) else tuple(key)),))


def fscalar(e):
    return fmono(e, ())


def fatom(name, args, shape):
    a = PAtom(name, args, shape)
    tag = fresh('k')
    TAG_OF[tag] = name
    key, bs = gen_key(a.shape, tag)
    return F((Term(((a, bs),), (), (), ONE, key),))


def fmul(f, g, keyop):
    out = []
    for a in f.ts:
        for b in g.ts:
            b = b.refresh()
            out.append(Term(a.pb + b.pb, a.ib + b.ib, a.dom + b.dom, a.coef * b.coef, keyop(a.key, b.key)))
    return F(out)


def key_add(k1, k2):
    if isinstance(k1, VecV) and isinstance(k2, VecV):
        return VecV(k1.length, k1.elem + k2.elem)
    assert len(k1) == len(k2), 'keys of different length'
    return tuple(comp_add(a, b) for a, b in zip(k1, k2))


def comp_add(a, b):
    if isinstance(a, E) and isinstance(b, E):
        return a + b
    if isinstance(a, tuple) and isinstance(b, tuple):      # Python: k1[i]+k2[i] concatenates tuples
        return a + b
    if isinstance(a, SeqV) and isinstance(b, SeqV):
        return a.concat(b)
    if isinstance(a, Bag) and isinstance(b, Bag):         # concatenated tuples of triples stand for the product
        return a.mul(b)
    raise Undecided(f'adding key components {a!r} and {b!r}')


def bind_over(f, g):
    """SUM over monomials of f of coef*g(key) ; g: key -> F"""
    out = []
    for t in f.ts:
        t = t.refresh()
        h = g(t.key)
        for u in h.ts:
            u = u.refresh()
            out.append(Term(t.pb + u.pb, t.ib + u.ib, t.dom + u.dom, t.coef * u.coef, u.key))
    return F(out)


def bind_range(lo, hi, g, name='i'):
    """SUM_{i=lo}^{hi} g(i)"""
    lo, hi = toE(lo), toE(hi)
    if lo.is_const() and hi.is_const() and hi.cval() - lo.cval() <= 12:
        r = FZERO
        for i in range(int(lo.cval()), int(hi.cval()) + 1):
            r = r + g(E.const(i))
        return r
    b = symbase(fresh(name), True)
    h = g(E.base(b))
    out = []
    for u in h.ts:
        u = u.refresh()
        out.append(Term(u.pb, (b,) + u.ib, (c_le(lo, E.base(b)), c_le(E.base(b), hi)) + u.dom, u.coef, u.key))
    return F(out).refresh() if out else F(out)


# ------------------------------------------------------------------ equality
class Mismatch:
    def __init__(self, model, term, why, rep=None):
        self.model, self.term, self.why, self.rep = model, term, why, rep

    def __repr__(self):
        return f'Mismatch({self.why}; near {self.term!r})'


RL = 30000000       # deterministic solver limit


class Stats:
    queries = 0
    time = 0.0


def zcheck(solver):
    import time
    t = time.time()
    r = solver.check()
    Stats.queries += 1
    Stats.time += time.time() - t
    return r


def mksolver(conds, timeout=60000):
    s = z3.Solver()
    s.set('timeout', timeout)
    s.set('rlimit', RL)
    for c in conds:
        s.add(c.z())
    return s


def feasible(conds):
    s = mksolver(conds)
    return zcheck(s) != z3.unsat


def valid(pc, c):
    if c.op == 'true':
        return True
    s = mksolver(pc)
    s.add(z3.Not(c.z()))
    return zcheck(s) == z3.unsat


def eq_solutions(conds, protect=()):
    """extract substitutions  base -> E  from linear equalities among conds"""
    mp = {}
    eqs = [c.a[0] for c in conds if c.op == 'eq0']
    for c in conds:
        if c.op == 'and':
            eqs += [d.a[0] for d in c.a if d.op == 'eq0']
    for e in eqs:
        e = e.subst(mp)
        for b in sorted(e.bases(), key=lambda b: ('!' not in b.key, b.key)):
            if b.kind != 's' or b in protect or not b.isint:
                continue
            ar = e.lin(b)
            if ar is None:
                continue
            a, r = ar
            if a.is_const() and a.cval() != 0:
                v = r * E.const(Fraction(-1) / a.cval())
                if any(c.denominator != 1 for c in v.t.values()):
                    continue
                one = {b: v}
                mp = {k: val_subst(x, one) for k, x in mp.items()}
                mp[b] = v
                break
    return mp


def resolve_seq(s, holds):
    """replace sequence atoms of known length 0 or 1 by their elements; holds(cond) decides"""
    if s.explicit():
        return s
    out = []
    for x in s.p:
        if x[0] == 'q':
            n = len_of(x[1])
            if holds(c_eq(n, ONE)):
                if x[2] == 'all':
                    out.append(('e', last_of(x[1])))
                continue
            if x[2] == 'all' and holds(c_eq(n, ZERO)):
                continue
        if x[0] == 'r' and holds(c_eq(x[2], ZERO)):
            continue
        out.append(x)
    return SeqV(out)


def flat(v):
    """flatten a key/arg value for equation generation"""
    if isinstance(v, E):
        return [v]
    if isinstance(v, SeqV) and v.explicit():
        return ['('] + [x[1] for x in v.p] + [')']
    if isinstance(v, VecV):
        return ['vec', v.length, v.elem]
    if isinstance(v, tuple):
        out = ['(']
        for x in v:
            out += flat(x)
        return out + [')']
    if isinstance(v, PAtom):
        return [v.name, '('] + flat(v.args) + [')']
    if isinstance(v, Bag):
        out = ['T{'] + [b.key for b in v.at] + [';']
        for t in v.tr:
            out += flat(t[0]) + list(t[1:]) if isinstance(t[0], tuple) else list(t)
        return out + ['}']
    if isinstance(v, SeqV):
        out = ['<']
        for x in v.p:
            if x[0] == 'q':
                out += [x[1].key + ':' + x[2]]
            elif x[0] == 'e':
                out += [x[1]]
            else:
                out += ['rep', x[1], x[2]]
        return out + ['>']
    return [repr(v)]


def fn_args(pairs, ibs):
    """an equation g(a) + c = g(b) + c between values of an opaque function, with an index inside: solve a = b"""
    for x, y in pairs:
        if isinstance(x, E) and isinstance(y, E):
            d = x - y
            if len(d.t) == 2:
                fs = []
                for m, c in d.t.items():
                    if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'a' and abs(c) == 1:
                        fs.append((c, m[0][0]))
                if len(fs) == 2 and fs[0][0] == -fs[1][0] and fs[0][1].args[-1] == fs[1][1].args[-1]:
                    if fs[0][0] < 0:
                        fs.reverse()
                    if set(ibs) & val_bases(fs[0][1].args[:-1]):
                        a, b = flat(tuple(fs[0][1].args[:-1])), flat(tuple(fs[1][1].args[:-1]))
                        if len(a) == len(b):
                            yield from fn_args(list(zip(a, b)), ibs)
                            continue
        yield x, y


def divides(a, r):
    """-r/a is an integer expression whenever the symbols of r are integers"""
    if not a.is_const() or a.cval() == 0:
        return False
    c = a.cval()
    return all((v / c).denominator == 1 for v in r.t.values())


def unify(T, R, pc, allow_left):
    """express T in R's binders.  Returns list of candidate (mp, extra conditions)"""
    if len(T.pb) != len(R.pb) or len(T.ib) > len(R.ib):
        return
    sigT = sorted(a.name for a, _ in T.pb)
    sigR = sorted(a.name for a, _ in R.pb)
    if sigT != sigR:
        return
    idx = list(range(len(R.pb)))
    nperm = 0
    for perm in itertools.permutations(idx):
        if any(T.pb[i][0].name != R.pb[perm[i]][0].name for i in idx):
            continue
        nperm += 1
        if nperm > 120:
            return
        mp = {}
        for i in idx:
            for bt, br in zip(T.pb[i][1], R.pb[perm[i]][1]):
                mp[bt] = base_value(br)
        fl_t = flat(val_subst(T.key, mp))
        fl_r = flat(R.key)
        for i in idx:
            fl_t += flat(tuple(val_subst(x, mp) for x in T.pb[i][0].args))
            fl_r += flat(tuple(R.pb[perm[i]][0].args))
        if len(fl_t) != len(fl_r):
            continue
        eqs = []
        ok = True
        for x, y in fn_args(zip(fl_t, fl_r), T.ib):
            if isinstance(x, str) or isinstance(y, str):
                if x != y:
                    ok = False
                    break
            else:
                d = x - y
                if d.is_const():
                    if d.cval() != 0:
                        ok = False
                        break
                else:
                    eqs.append(d)
        if not ok:
            continue
        sol = {}
        un = set(T.ib)
        progress = True
        while progress and un:
            progress = False
            for n, e in enumerate(eqs):
                if not e.t:
                    continue
                for b in sorted(un, key=lambda b: b.key):
                    ar = e.lin(b) if b in e.bases() else None
                    if ar is None:
                        continue
                    a, r = ar
                    if divides(a, r):
                        v = r * E.const(-1 / a.cval())
                        one = {b: v}
                        sol = {k: x.subst(one) for k, x in sol.items()}
                        sol[b] = v
                        un.discard(b)
                        eqs = [x.subst(one) for x in eqs]
                        progress = True
                        break
                if progress:
                    break
        left = [e for e in eqs if e.t]
        if any(e.is_const() for e in left):
            continue
        if any(b in e.bases() for e in left for b in un):
            continue
        # eliminate R ints by leftover equations
        runs = set(R.ib)
        relim = 0
        left2 = list(left)
        hard = []
        det = set()
        while left2:
            e = left2.pop(0)
            if not e.t:
                continue
            done = False
            for b in sorted(runs, key=lambda b: b.key):
                ar = e.lin(b) if b in e.bases() else None
                if ar and divides(*ar):
                    v = ar[1] * E.const(-1 / ar[0].cval())
                    left2 = [x.subst({b: v}) for x in left2]
                    runs.discard(b)
                    relim += 1
                    done = True
                    break
            if not done:
                hard.append(e)
        if any(e.is_const() and e.t for e in hard):
            continue
        if (left or hard) and not allow_left:
            continue
        if len(R.ib) - relim != len(T.ib):
            continue
        extra = [c_eq(e, ZERO) for e in left]
        # unsolved T vars <-> R vars not determined
        if un:
            used = set()
            for v in sol.values():
                used |= v.bases()
            cand = [b for b in R.ib if b in runs and b not in used]
            un_l = sorted(un, key=lambda b: T.ib.index(b))
            for sub in itertools.permutations(cand, len(un_l)) if len(cand) >= len(un_l) else ():
                base = dict(sol)
                opts = []
                for b, r in zip(un_l, sub):
                    o = [E.base(r)]
                    rg = var_range(R, r)
                    if rg:
                        o.append(rg[0] + rg[1] - E.base(r))
                    opts.append(o)
                for ch in itertools.product(*opts):
                    m2 = {k: x.subst(dict(zip(un_l, ch))) for k, x in base.items()}
                    m2.update(dict(zip(un_l, ch)))
                    full = dict(mp)
                    full.update(m2)
                    yield full, extra, hard
            if not left and not hard:
                for m2 in by_factorials(T.coef.subst(mp), R.coef, sol, un_l, R.ib):
                    full = dict(mp)
                    full.update(m2)
                    yield full, extra, hard
        else:
            full = dict(mp)
            full.update(sol)
            yield full, extra, hard


def fact_args(e):
    return [b.args[0] for b in sorted(e.bases(), key=lambda b: b.key) if b.kind == 'f']


def by_factorials(ct, cr, sol, un, rib, limit=40):
    """further correspondences of the index variables: factorials of one coefficient paired with those of the other"""
    rs = fact_args(cr)
    n = [0]

    def go(sol, un, used):
        if n[0] > 400:
            return
        if not un:
            n[0] += 1
            if unimodular(sol, rib):
                yield dict(sol)
            return
        for a in fact_args(ct):
            a = a.subst(sol)
            hit = [b for b in un if b in a.bases()]
            if not hit:
                continue
            b = hit[0]
            ar = a.lin(b)
            if ar is None or not ar[0].is_const() or abs(ar[0].cval()) != 1:
                continue
            for j, r in enumerate(rs):
                if j in used:
                    continue
                n[0] += 1
                v = (r - ar[1]) * E.const(1 / ar[0].cval())
                one = {b: v}
                s2 = {k: x.subst(one) for k, x in sol.items()}
                s2[b] = v
                yield from go(s2, [x for x in un if x != b], used | {j})
            return
    out = 0
    for m in go(dict(sol), list(un), frozenset()):
        yield m
        out += 1
        if out > limit:
            return


def unimodular(sol, rib):
    """the substitution is a bijection of the integer lattice"""
    rows = []
    for b, v in sol.items():
        row = []
        for r in rib:
            ar = v.lin(r) if r in v.bases() else (ZERO, v)
            if ar is None or not ar[0].is_const():
                return False
            row.append(ar[0].cval())
        rows.append(row)
    if len(rows) != len(rib):
        return False
    return abs(det(rows)) == 1


def det(m):
    m = [list(map(Fraction, r)) for r in m]
    d = Fraction(1)
    for i in range(len(m)):
        p = next((r for r in range(i, len(m)) if m[r][i] != 0), None)
        if p is None:
            return Fraction(0)
        if p != i:
            m[i], m[p] = m[p], m[i]
            d = -d
        d *= m[i][i]
        for r in range(i + 1, len(m)):
            f = m[r][i] / m[i][i]
            m[r] = [x - f * y for x, y in zip(m[r], m[i])]
    return d


def var_range(R, b):
    lo = hi = None
    for c in R.dom:
        if c.op == 'le0':
            ar = c.a[0].lin(b)
            if ar and ar[0].is_const():
                if ar[0].cval() == -1 and lo is None:
                    lo = ar[1]
                if ar[0].cval() == 1 and hi is None:
                    hi = -ar[1]
    return (lo, hi) if lo is not None and hi is not None else None


def full_subst(T, mp):
    # first rename poly binders, then ints (ints' images are already in R variables)
    return (tuple(c for c in (d.subst(mp) for d in T.dom) if c.op != 'true'), T.coef.subst(mp))


def preprocess(f, pc, defs):
    """apply equalities of the path condition, expand constant atoms, drop infeasible terms"""
    mp = eq_solutions(pc)
    work = [t.subst(mp) if mp else t for t in f.ts]
    out = []
    n = 0
    while work:
        t = work.pop()
        n += 1
        if n > 20000:
            raise Undecided('too many terms')
        if not t.coef.t or any(d.op == 'false' for d in t.dom):
            continue
        fixed = {b: v for b, v in eq_solutions(t.dom).items() if b in t.ib and v.is_const()} if t.ib else {}
        if fixed:
            work.append(Term(t.pb, tuple(b for b in t.ib if b not in fixed), t.dom, t.coef, t.key).subst(fixed))
            continue
        done = False
        for j, (a, bs) in enumerate(t.pb):
            d = defs.get(a.name) if defs else None
            if d is None:
                continue
            r = d(a.args)
            if r is None:
                continue
            rest = t.pb[:j] + t.pb[j + 1:]
            for u in r.refresh().ts:
                m2 = match_bases(bs, u.key, a.shape)
                nt = Term(rest, t.ib, t.dom, t.coef, t.key).subst(m2)
                work.append(Term(u.pb + nt.pb, u.ib + nt.ib, u.dom + nt.dom, u.coef * nt.coef, nt.key))
            done = True
            break
        if not done:
            if not isinstance(t.key, VecV) and any(isinstance(v, SeqV) and not v.explicit() for v in t.key):
                cs = {}

                def holds(c, t=t, cs=cs):
                    k = repr(c)
                    if k not in cs:
                        cs[k] = valid(list(pc) + list(t.dom) + inv_conds(t.pb), c)
                    return cs[k]
                c = SPLIT_EMPTY and undecided_length(t.key, holds)
                if c:
                    work += [Term(t.pb, t.ib, t.dom + (x,), t.coef, t.key) for x in (c, c_not(c))]
                    continue
                t = Term(t.pb, t.ib, t.dom, t.coef, tuple(resolve_seq(v, holds) if isinstance(v, SeqV) else v for v in t.key))
            out.append(norm_rates(bag_eqs(t)).refresh())       # distinct binders in every term
    return out


SPLIT_EMPTY = False


def undecided_length(key, holds):
    """a case distinction on the length (none, one, more) of a part of a sequence that is still open"""
    for v in key:
        if isinstance(v, SeqV):
            for x in v.p:
                if x[0] == 'q' or x[0] == 'r':
                    n = x[2] if x[0] == 'r' else len_of(x[1])
                    for v0 in (ZERO,) if x[0] == 'r' else (ZERO, ONE):
                        c = c_eq(n, v0)
                        if not holds(c) and not holds(c_not(c)):
                            return c
    return None


NORM_T = False      # keys carry PRODUCT (n1 k1 + n2 k2)^{-i}: constant rates are made primitive


def norm_rates(t):
    if not NORM_T or isinstance(t.key, VecV):
        return t
    co, key, hit = t.coef, [], False
    for v in t.key:
        if isinstance(v, Bag):
            tr = []
            for n1, n2, i in v.tr:
                if n1.is_const() and n2.is_const() and i.is_const() and (n1.t or n2.t):
                    a, b = int(n1.cval()), int(n2.cval())
                    g = math.gcd(a, b)
                    if a < 0 or (a == 0 and b < 0):
                        g = -g
                    if g != 1:
                        co = co * E.const(Fraction(g) ** -int(i.cval()))
                        n1, n2, hit = E.const(a // g), E.const(b // g), True
                tr.append((n1, n2, i))
            v = Bag(v.at, tuple(tr))
        key.append(v)
    return Term(t.pb, t.ib, t.dom, co, tuple(key)) if hit else t


def bag_eqs(t):
    """apply equalities between entries of tuple-of-tuples values (conditions of the term) to its key"""
    if isinstance(t.key, VecV) or not any(isinstance(v, Bag) and len(v.tr) > 1 for v in t.key):
        return t
    eqs = [c.a[0] for d in t.dom for c in ((d,) if d.op != 'and' else d.a) if c.op == 'eq0']
    if not eqs:
        return t
    idx = {repr(b.args[1]) for b in t.coef.bases() if b.kind == 'a' and b.args[-1][1] == 'bat'}
    key = t.key
    for e in eqs:
        bs = [b for b in e.bases() if b.kind == 'a' and b.args[-1][1] == 'bat' and e.lin(b) and e.lin(b)[0].is_const()]
        bs = [b for b in bs if any(isinstance(v, Bag) and any(b in val_bases(tr) for tr in v.tr) for v in key)]
        bs.sort(key=lambda b: (repr(b.args[1]) in idx, b.key))
        if bs:
            a, r = e.lin(bs[0])
            v = r * E.const(-1 / a.cval())
            one = lambda x: val_subst(x, {bs[0]: v})
            key = tuple(Bag(k.at, tuple(one(x) for x in k.tr)) if isinstance(k, Bag) else k for k in key)
    return Term(t.pb, t.ib, t.dom, t.coef, key)


def match_bases(bs, key, shape):
    if shape == ('V',):
        return {bs[0]: key}
    mp = {}
    i = 0
    for v, s in zip(key, shape):
        if isinstance(s, int):
            for x in v:
                mp[bs[i]] = x
                i += 1
        else:
            mp[bs[i]] = SeqV(tuple(('e', e) for e in v)) if s == 'q' and isinstance(v, tuple) else v
            i += 1
    return mp


def equal(f, g, pc, defs=None, want_model=True):
    """decide f == g under pc; when that fails, once more with the sequences that may be empty treated by cases"""
    global SPLIT_EMPTY
    und = r = None
    try:
        r = equal_once(f, g, pc, defs, want_model)
        if r is None:
            return None
    except Undecided as e:
        und = e
    if SPLIT_EMPTY or not any(isinstance(v, SeqV) and not v.explicit() for h in (f, g) for t in h.ts if isinstance(t.key, tuple) for v in t.key):
        if und:
            raise und
        return r
    SPLIT_EMPTY = True
    try:
        return equal_once(f, g, pc, defs, want_model)
    finally:
        SPLIT_EMPTY = False


def equal_once(f, g, pc, defs=None, want_model=True):
    """decide f == g under pc.  Returns None when equal, a Mismatch otherwise; raises Undecided."""
    if not feasible(pc):
        return None
    ts = [(1, t) for t in preprocess(f, pc, defs)] + [(-1, t) for t in preprocess(g, pc, defs)]
    ts2 = []
    seen = {}
    for s, t in ts:
        # identical closed terms cancel/merge quickly
        ts2.append((s, t))
    ts2.sort(key=lambda st: -len(st[1].ib))
    classes = []      # [rep, members [(dom, coef)]]
    for s, t in ts2:
        placed = False
        for allow in (False, True):
            for cl in classes:
                first = None
                for n, (mp, extra, hard) in enumerate(unify(t, cl[0], pc, allow)):
                    dom, coef = full_subst(t, mp)
                    if hard:
                        h = [c_eq(e, ZERO) for e in hard]
                        if not all(valid(list(pc) + list(dom) + extra, c) for c in h):
                            continue
                    cand = (tuple(dom) + tuple(extra), coef * s, t)
                    if first is None:
                        first = cand
                    # prefer the correspondence under which the coefficients agree
                    if coef == cl[0].coef or repr(coef) == repr(cl[0].coef) or (coef + cl[0].coef).t == {}:
                        first = cand
                        break
                    if n > 60:
                        break
                if first is not None:
                    cl[1].append(first)
                    placed = True
                    break
            if placed:
                break
        if not placed:
            classes.append([t, [(t.dom, t.coef * s, t)]])
    for rep, members in classes:
        r = check_class(rep, members, pc)
        if r is not None:
            return r
    return None


def check_class(rep, members, pc):
    # fast path: all domains syntactically equal
    d0 = set(map(repr, members[0][0]))
    if all(set(map(repr, m[0])) == d0 for m in members):
        tot = ZERO
        for _, c, _ in members:
            tot = tot + c
        if is_zero(tot):
            return None
    s = mksolver(list(pc) + inv_conds(rep.pb))
    zs = [z3.And(*[c.z() for c in m[0]]) if m[0] else z3.BoolVal(True) for m in members]
    s.add(z3.Or(*zs))
    for _ in range(200):
        r = zcheck(s)
        if r == z3.unsat:
            return None
        if r != z3.sat:
            raise Undecided('z3 unknown on a domain')
        m = s.model()
        truth = [z3.is_true(m.eval(z, model_completion=True)) for z in zs]
        tot = ZERO
        conds = list(pc)
        for t, (dom, c, _) in zip(truth, members):
            if t:
                tot = tot + c
                conds += list(dom)
        region = [z if t else z3.Not(z) for t, z in zip(truth, zs)]
        if not is_zero(tot):
            mp = eq_solutions(conds)
            tot2 = tot.subst(mp) if mp else tot
            if not is_zero(tot2):
                # equalities that hold on the whole region although no domain states them (a bound that is attained)
                cand = {}
                for dom, _, _ in members:
                    for d in dom:
                        for x in (d.a if d.op == 'and' else (d,)):
                            if x.op in ('le0', 'lt0'):
                                for sh in (0, 1):
                                    cand.setdefault(repr(x.a[0] + sh), x.a[0] + sh)
                            if x.op == 'not' and x.a[0].op == 'eq0':
                                cand.setdefault(repr(x.a[0].a[0]), x.a[0].a[0])
                eqs = []
                # the part of the region that contains the point found
                sub = [c_eq(e, ZERO) for e in cand.values() if z3.is_true(m.eval(c_eq(e, ZERO).z(), model_completion=True))]
                for some in [[c] for c in sub] + [sub]:
                    if not some:
                        continue
                    mp = eq_solutions(conds + some)
                    tot2 = tot.subst(mp) if mp else tot
                    for c in some:          # applications pinned to a constant
                        e = c.a[0] if c.op == 'eq0' else ZERO
                        for b in e.bases():
                            ar = e.lin(b) if b.kind == 'a' else None
                            if ar and ar[0].is_const() and ar[0].t and ar[1].is_const():
                                tot2 = tot2.subst({b: ar[1] * E.const(Fraction(-1) / ar[0].cval())})
                                break
                    if is_zero(tot2):
                        region += [c.z() for c in some]
                        break
                else:
                    tot2 = tot
                for e in cand.values() if not is_zero(tot2) else ():
                    s.push()
                    s.add(*region)
                    s.add(z3.Not(c_eq(e, ZERO).z()))
                    if zcheck(s) == z3.unsat:
                        eqs.append(c_eq(e, ZERO))
                    s.pop()
                if eqs:
                    mp = eq_solutions(conds + eqs)
                    tot2 = tot.subst(mp) if mp else tot
            if not is_zero(tot2):
                # is the region pinned to this point?  look for a point where the numeric value differs
                mm = good_point(s, region, tot2, m)
                why = 'coefficient %r of %r in excess' % (tot2, rep.key)
                return Mismatch(mm, rep, why)
        s.add(z3.Not(z3.And(*region)))
    raise Undecided('too many regions')


def good_point(s, region, tot, m):
    return m
