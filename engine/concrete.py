"""Concrete evaluation of contracts, and of the real functions, on the same inputs.

Used for two things: to turn the verifier's counterexample to an obligation into a failing input of the real code, and
as the labelled *bounded* stand-in when an obligation cannot be generated or decided.
"""
import sys, os, importlib, random
from fractions import Fraction
from .expr import *
from .sums import *
from .interp import *
from . import interp as _i

if _i.SRC not in sys.path:
    sys.path.insert(0, _i.SRC)


class NotConcrete(Exception):
    pass


def real(qual):
    """the real function/class attribute named by a qualified name"""
    parts = qual.split('.')
    for i in range(len(parts), 0, -1):
        try:
            m = importlib.import_module('.'.join(parts[:i]))
        except ImportError:
            continue
        o = m
        for p in parts[i:]:
            o = getattr(o, p)
        return o
    raise NotConcrete(qual)


def lift_key(key, shape):
    """python key -> engine key"""
    out = []
    if shape and shape[-1] == 'Q':
        n = len(shape) - 1
        return lift_key(key[:n], shape[:n]) + (Bag((), tuple((tuple(E.const(y) for y in x[:3]), ZERO, E.const(x[3])) for x in key[n:] if x[3])),)
    if shape and shape[-1] == 'J':
        n = len(shape) - 1
        return lift_key(key[:n], shape[:n]) + (Bag((), tuple((E.const(a), ZERO, E.const(c)) for a, c in key[n:] if c)),)
    for v, s in zip(key, shape):
        if s == 'i':
            out.append(E.const(v))
        elif s == 'q':
            out.append(SeqV(tuple(('e', E.const(x)) for x in v)))
        elif s == 'T':
            out.append(Bag((), tuple((E.const(a), E.const(b), E.const(c)) for a, b, c in v if c)))
        else:
            out.append(tuple(E.const(x) for x in v))
    return tuple(out)


def lift_dict(d, shape):
    """dict key->value (python) to {engine key repr: (key, E)}"""
    out = {}
    for k, v in d.items():
        kk = lift_key(k, shape) if shape is not None else tuple(lift_any(x) for x in k)
        r = repr(kk)
        c = v if isinstance(v, E) else toE(Fraction(v))
        if r in out:
            c = c + out[r][1]
        out[r] = (kk, c)
    return {r: x for r, x in out.items() if not is_zero(x[1])}


def rates_evaluated(a, b, shape):
    """components standing for PRODUCT (n1 k1 + n2 k2)^{-i} are replaced by their value at fixed generic rates, because
    the same function has many such writings"""
    if not shape or not any(s in ('T', 3) for s in shape):
        return a, b
    K1, K2 = Fraction(10007, 313), Fraction(7919, 1009)

    def ev(d):
        out = {}
        for key, c in d.values():
            v, rest = Fraction(1), []
            for x, s in zip(key, shape):
                if s in ('T', 3):
                    for n1, n2, i in (x.tr if isinstance(x, Bag) else (x,)):
                        if not (n1.is_const() and n2.is_const() and i.is_const()):
                            raise NotConcrete('rate')
                        i = int(i.cval())
                        if i:
                            r = n1.cval() * K1 + n2.cval() * K2
                            if not r:
                                rest.append('division by zero')
                                continue
                            v *= Fraction(r) ** -i
                else:
                    rest.append(x)
            q = repr(rest)
            out[q] = (tuple(rest), c * v + (out[q][1] if q in out else ZERO))
        return {r: x for r, x in out.items() if not is_zero(x[1])}
    return ev(a), ev(b)


def lift_any(x):
    if isinstance(x, bool) or not isinstance(x, (int, Fraction, tuple)):
        raise NotConcrete(type(x).__name__)
    if isinstance(x, (int, Fraction)):
        return E.const(x)
    return tuple(lift_any(y) for y in x)


def lower(v):
    if isinstance(v, E):
        if not v.is_const():
            raise NotConcrete(repr(v))
        c = v.cval()
        return int(c) if c.denominator == 1 else c
    if isinstance(v, tuple):
        return tuple(lower(x) for x in v)
    if isinstance(v, SeqV) and v.explicit():
        return tuple(lower(x[1]) for x in v.p)
    if isinstance(v, Bag) and not v.at:
        r = tuple(tuple(lower(y) for y in x) for x in v.tr)
        return r or ((0, 0, 0),)
    if isinstance(v, str) or v is None or isinstance(v, bool):
        return v
    if isinstance(v, ListV):
        return [lower(x) for x in v.items]
    raise NotConcrete(type(v).__name__)


def ranges(t):
    """interval propagation: bounds of the integer binders implied by the linear conditions"""
    rg = {b: [None, None] for b in t.ib}
    lin = []
    for d in t.dom:
        for c in (d.a if d.op == 'and' else (d,)):
            if c.op in ('le0', 'lt0', 'eq0') and all(len(m) <= 1 and all(p == 1 and b in rg for b, p in m) for m in c.a[0].t):
                e = {m[0][0]: v for m, v in c.a[0].t.items() if m}
                k = c.a[0].cval()
                if c.op == 'lt0' and k.denominator == 1 and all(v.denominator == 1 for v in e.values()):
                    k += 1
                lin.append((e, k))
                if c.op == 'eq0':
                    lin.append(({b: -v for b, v in e.items()}, -c.a[0].cval()))
    for _ in range(len(t.ib) + 1):
        for e, c in lin:                                    # SUM e_b b + c <= 0
            for b, a in e.items():
                r = c
                for x, v in e.items():
                    if x != b:
                        y = rg[x][0 if v > 0 else 1]
                        if y is None:
                            r = None
                            break
                        r += v * y
                if r is None:
                    continue
                q = -r / a
                if a > 0:
                    q = q.numerator // q.denominator
                    rg[b][1] = q if rg[b][1] is None else min(q, rg[b][1])
                else:
                    q = -((-q.numerator) // q.denominator)
                    rg[b][0] = q if rg[b][0] is None else max(q, rg[b][0])
    return rg


def eval_f(f, atoms, limit=400000):
    """value of a formal sum: {repr key: (key, E)};  atoms(name, args, shape) -> {repr: (key, E)}"""
    out = {}
    cnt = [0]

    def add(key, c):
        r = repr(key)
        if r in out:
            c = c + out[r][1]
        out[r] = (key, c)

    def sub(t, mp, acc, mul):
        dom = tuple(d.subst(mp) for d in t.dom)
        if any(d.op == 'false' for d in dom):
            return
        u = Term(tuple((a.subst(mp), bs) for a, bs in t.pb), t.ib, dom, t.coef, val_subst(t.key, mp))
        go(u, {**acc, **mp}, mul)

    def go(t, acc, mul):
        """the coefficient of t is substituted (by acc) only when all binders have their values"""
        cnt[0] += 1
        if cnt[0] > limit:
            raise NotConcrete('too many terms')
        if any(d.op == 'false' for d in t.dom):
            return
        free = set(t.ib)
        for _, bs in t.pb:
            free |= set(bs)
        for j, (a, bs) in enumerate(t.pb):
            if not (val_bases(a.args) & free):
                vals = atoms(a.name, a.args, a.shape)
                rest = t.pb[:j] + t.pb[j + 1:]
                for key, c in list(vals.values()):
                    sub(Term(rest, t.ib, t.dom, t.coef, t.key), match_bases(bs, key, a.shape), acc, mul * c)
                return
        if t.ib:
            rg = ranges(t)
            if any(None not in r and r[0] > r[1] for r in rg.values()):
                return
            b = min((b for b in t.ib if None not in rg[b]), key=lambda b: rg[b][1] - rg[b][0], default=None)
            if b is not None:
                rest = tuple(x for x in t.ib if x != b)
                for v in range(rg[b][0], rg[b][1] + 1):
                    sub(Term(t.pb, rest, t.dom, t.coef, t.key), {b: E.const(v)}, acc, mul)
                return
        if t.pb or t.ib:
            raise NotConcrete('unbounded binder')
        for d in t.dom:
            if d.op != 'true':
                raise NotConcrete(f'undetermined condition {d!r}')
        try:
            c = t.coef.subst(acc) if acc else t.coef
        except ZeroDivisionError:
            raise NotConcrete('division by zero in a coefficient')
        add(t.key, c * mul)
    for t in f.ts:
        go(t, {}, ONE)
    return {r: x for r, x in out.items() if not is_zero(x[1])}


def same_dict(a, b):
    """first differing key of two evaluated sums, or None"""
    for r in list(a) + [r for r in b if r not in a]:
        x = a[r][1] if r in a else ZERO
        y = b[r][1] if r in b else ZERO
        if not is_zero(x - y):
            return r, x, y
    return None
