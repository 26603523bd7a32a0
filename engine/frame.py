"""Frame conditions of the package: what the engines take for granted about a module-level name must be what the source says.

A name is *tainted* (the engines refuse to reason about it; the function falls back to the bounded stand-in) when
  * a function has decorators, or a mutable default value (a memo that survives between calls);
  * it is bound in a way the loaders do not follow (in a branch, a loop, by tuple assignment, more than one kind of binding);
  * it is rebound through `global`, or its attributes are set (f.cache = ..., module.f = ...);
  * it is a mutable module-level object (dict, list, set, Poly) that some function changes, returns, stores or passes on;
  * the module does other things at import time.
The polynomial class is tainted when it overrides dictionary primitives or in-place operators."""
import ast
import os

PURE_FN = {'len', 'sorted', 'range', 'sum', 'min', 'max', 'tuple', 'list', 'dict', 'set', 'frozenset', 'enumerate', 'zip', 'str', 'repr', 'int',
           'float', 'isinstance', 'print', 'any', 'all', 'reversed', 'Fraction', 'Frac', 'abs', 'bool', 'iter', 'set_keyfor'}
PURE_METH = {'get', 'items', 'keys', 'values', 'copy', 'index', 'count', 'join', 'format', 'startswith', 'endswith', 'set_keyfor', 'union', 'intersection',
             'difference', 'issubset'}
MUT_CALL = {'dict', 'list', 'set', 'bytearray', 'defaultdict', 'OrderedDict', 'Counter', 'deque', 'Poly', 'UserDict', 'deepcopy', 'copy', 'SimpleNamespace'}
TRANSPARENT = {'lru_cache', 'cache'}
DYNAMIC = {'setattr', 'globals', 'exec', 'eval', 'vars', '__import__', 'delattr', 'locals'}
CLASS_BAD = {'__init__', '__new__', '__getattr__', '__getattribute__', '__setattr__', '__delattr__', '__setitem__', '__getitem__', '__delitem__', '__contains__', '__iter__',
             '__len__', '__missing__', '__bool__', '__eq__', '__ne__', '__copy__', '__deepcopy__', '__iadd__', '__isub__', '__imul__', '__ipow__', '__radd__', '__rsub__',
             '__rpow__', '__call__', '__class_getitem__', '__init_subclass__', '__ior__', '__or__', 'items', 'keys', 'values', 'get', 'pop', 'popitem', 'update', 'clear', 'copy',
             'setdefault', 'data', 'fromkeys'}


def call_name(f):
    return f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ''


def mutable(e):
    return isinstance(e, (ast.Dict, ast.List, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)) or isinstance(e, ast.Call) and call_name(e.func) in MUT_CALL \
        or isinstance(e, (ast.BinOp, ast.IfExp)) and any(mutable(x) for x in ast.iter_child_nodes(e) if isinstance(x, ast.expr))


def main_guard(n):
    return isinstance(n, ast.If) and '__name__' in ast.unparse(n.test) and '__main__' in ast.unparse(n.test)


def root(e):
    while isinstance(e, (ast.Attribute, ast.Subscript, ast.Starred, ast.Call)):
        e = e.func if isinstance(e, ast.Call) else e.value
    return e.id if isinstance(e, ast.Name) else None


def bound_in(n):
    """names bound by a statement in the scope it stands in"""
    out = set()
    todo = [n]
    while todo:
        x = todo.pop()
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(x.name)
            continue
        if isinstance(x, ast.Lambda):
            continue
        if isinstance(x, (ast.Import, ast.ImportFrom)):
            out |= {(a.asname or a.name).split('.')[0] for a in x.names}
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            out.add(x.id)
        if isinstance(x, ast.ExceptHandler) and x.name:
            out.add(x.name)
        todo += list(ast.iter_child_nodes(x))
    return out


def locals_of(f):
    a = f.args
    r = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
    g = set()
    for x in ast.walk(f):
        if isinstance(x, ast.Global):
            g |= set(x.names)
    if isinstance(f, ast.Lambda):
        return r
    for s in f.body:
        r |= bound_in(s)
    # comprehension and lambda variables are local as well
    for x in ast.walk(f):
        if isinstance(x, ast.comprehension):
            r |= {y.id for y in ast.walk(x.target) if isinstance(y, ast.Name)}
        if isinstance(x, ast.Lambda):
            r |= {y.arg for y in x.args.args}
    return r - g


class Frames:
    def __init__(self, src):
        self.taint = {}             # (module, name) -> reason
        self.attr = {}              # attribute name set on some module or class -> reason
        self.poly = None
        self.trees, self.data, self.imports, self.kinds = {}, {}, {}, {}
        for dp, dn, fn in os.walk(os.path.join(src, 'ajdmom')):
            for f in sorted(fn):
                if f.endswith('.py'):
                    p = os.path.join(dp, f)
                    m = os.path.relpath(p, src)[:-3].replace(os.sep, '.')
                    m = m[:-9] if m.endswith('.__init__') else m
                    try:
                        with open(p) as fh:
                            self.trees[m] = ast.parse(fh.read())
                    except SyntaxError:
                        continue
        for m, t in self.trees.items():
            self.bindings(m, t)
        for m, t in self.trees.items():
            self.uses(m, t)

    def mark(self, m, n, why):
        self.taint.setdefault((m, n), why)

    # ---- what a module binds
    def bindings(self, m, t):
        kinds = self.kinds[m] = {}
        data = self.data[m] = {}
        imp = self.imports[m] = {}

        def bind(n, k):
            if kinds.get(n, k) != k:
                self.mark(m, n, f'{n} is bound in two ways')
            kinds[n] = k
        for s in t.body:
            if isinstance(s, ast.FunctionDef):
                bind(s.name, 'def')
                if s.decorator_list:
                    if all(call_name(d.func if isinstance(d, ast.Call) else d) in TRANSPARENT for d in s.decorator_list):
                        s.cached = True
                    else:
                        self.mark(m, s.name, f'{s.name} is decorated')
            elif isinstance(s, ast.ClassDef):
                bind(s.name, 'class')
                self.klass(m, s)
            elif isinstance(s, (ast.Import, ast.ImportFrom)):
                for a in s.names:
                    nm = (a.asname or a.name).split('.')[0]
                    if isinstance(s, ast.ImportFrom):
                        base = s.module or ''
                        if s.level:
                            parts = m.split('.')
                            if not (m + '.x').startswith('ajdmom.') or m in ('ajdmom',) or any(k.startswith(m + '.') for k in self.trees):
                                parts = parts[:len(parts) - (s.level - 1)]
                            else:
                                parts = parts[:len(parts) - s.level]
                            base = '.'.join(parts + ([s.module] if s.module else []))
                        imp[nm] = (base, a.name)
                    else:
                        imp[nm] = (a.name, None)
                    bind(nm, 'import')
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                n = s.targets[0].id
                if n in data:
                    self.mark(m, n, f'{n} is assigned twice')
                data[n] = s.value
                bind(n, 'data')
            elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) or isinstance(s, ast.Pass) or main_guard(s):
                pass
            else:
                for n in bound_in(s):
                    self.mark(m, n, f'{n} is bound in a way that is not followed')
                for x in ast.walk(s):
                    tg = [x] if isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, (ast.Store, ast.Del)) else []
                    for y in tg:
                        self.store(m, y, set())
                    if isinstance(x, ast.Call) and not isinstance(s, (ast.Assert,)):
                        for y in [x.func] + list(x.args):
                            r = root(y)
                            if r:
                                self.mark(m, r, f'{r} is used at import time') if kinds.get(r) in ('data', 'def') else None

    def klass(self, m, c):
        if m != 'ajdmom.poly' or c.name != 'Poly':
            return
        seen = set()
        if c.decorator_list or c.keywords or [ast.unparse(b) for b in c.bases] not in (['UserDict'], ['collections.UserDict']):
            self.poly = 'bases or decorators of the class Poly'
        for x in c.body:
            if isinstance(x, ast.FunctionDef):
                if x.name in CLASS_BAD:
                    self.poly = f'Poly.{x.name} is overridden'
                if x.decorator_list or x.name in seen:
                    self.poly = f'Poly.{x.name} is decorated or defined twice'
                seen.add(x.name)
            elif isinstance(x, ast.Assign):
                for n in bound_in(x):
                    if n in CLASS_BAD or n in seen:
                        self.poly = f'Poly.{n} is overridden'
                    if mutable(x.value) and n != 'keyfor':
                        self.poly = f'Poly.{n} is a mutable class attribute'
            elif not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant)) and not isinstance(x, (ast.Pass, ast.AnnAssign)):
                self.poly = 'statements in the class Poly'

    # ---- how module-level names are used
    def origin(self, m, n, seen=()):
        """(module, name) of the data object a global name stands for, or None"""
        if (m, n) in seen:
            return None
        if n in self.data.get(m, {}):
            return (m, n)
        if n in self.imports.get(m, {}):
            b, k = self.imports[m][n]
            if k is not None and b in self.trees:
                return self.origin(b, k, seen + ((m, n),))
        return None

    def store(self, m, x, loc):
        """an attribute or item is set"""
        r = root(x)
        if r is None or r in loc:
            return
        k = self.kinds.get(m, {}).get(r)
        if k in ('def', 'data'):
            self.mark(m, r, f'{r} is changed')
        elif k == 'class':
            self.poly = self.poly or f'attributes of {r} are set'
        elif k == 'import':
            o = self.origin(m, r)
            if o:
                self.mark(*o, f'{o[1]} is changed')
            y = x
            while isinstance(y, (ast.Attribute, ast.Subscript)):
                if isinstance(y, ast.Attribute):
                    self.attr[y.attr] = f'{y.attr} is set on {r}'
                y = y.value
            if r == 'Poly':
                self.poly = self.poly or 'attributes of Poly are set'
            b, kk = self.imports[m][r]
            if kk and b in self.trees:
                self.mark(b, kk, f'{kk} is changed')

    def uses(self, m, t):
        funcs = []
        for s in t.body:
            if main_guard(s):
                continue
            if isinstance(s, ast.FunctionDef):
                funcs.append((s, s.name, set()))
            elif isinstance(s, ast.ClassDef):
                for x in s.body:
                    if isinstance(x, ast.FunctionDef):
                        funcs.append((x, None, set()))
        for f, name, _ in funcs:
            loc = locals_of(f)
            parent = {}
            for x in ast.walk(f):
                for y in ast.iter_child_nodes(x):
                    parent[y] = x
            for x in ast.walk(f):
                if isinstance(x, (ast.FunctionDef, ast.Lambda)):
                    for d in x.args.defaults + [d for d in x.args.kw_defaults if d]:
                        if mutable(d) and x is f:
                            if name is None:
                                self.poly = self.poly or f'{f.name} has a mutable default value'
                            else:
                                self.mark(m, name, f'{name} has a mutable default value')
                        o = self.origin(m, d.id) if isinstance(d, ast.Name) else None
                        if o and mutable(self.data[o[0]][o[1]]):
                            self.mark(*o, f'{d.id} is a default value')
                if isinstance(x, ast.Global):
                    for n in x.names:
                        self.mark(m, n, f'{n} is rebound by a function')
                        if n in self.imports.get(m, {}):
                            o = self.origin(m, n)
                            if o:
                                self.mark(*o, f'{n} is rebound by a function')
                if isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    self.store(m, x, loc)
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in DYNAMIC and x.func.id not in loc and name:
                    self.mark(m, name, f'{x.func.id} is used')
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id not in loc:
                    o = self.origin(m, x.id)
                    if o and mutable(self.data[o[0]][o[1]]) and not self.pure(x, parent, self.data[o[0]][o[1]]):
                        self.mark(*o, f'{x.id} may be changed or shared')

    def pure(self, x, parent, value):
        p = parent.get(x)
        inner = any(mutable(y) for y in ast.walk(value) if y is not value and isinstance(y, ast.expr) and not isinstance(y, ast.Name)
                    and not (isinstance(value, ast.Call) and y in value.args))
        if isinstance(p, ast.Subscript) and p.value is x and isinstance(p.ctx, ast.Load):
            return not inner
        if isinstance(p, ast.Compare):
            return True
        if isinstance(p, (ast.For, ast.comprehension)) and p.iter is x:
            return not inner
        if isinstance(p, ast.Call) and x in p.args and isinstance(p.func, ast.Name) and p.func.id in PURE_FN:
            return not inner
        if isinstance(p, ast.Call) and x in p.args and isinstance(p.func, ast.Attribute) and p.func.attr == 'set_keyfor':
            return not inner
        if isinstance(p, ast.Attribute) and isinstance(parent.get(p), ast.Call) and parent[p].func is p and p.attr in PURE_METH:
            return not inner
        if isinstance(p, ast.BinOp) and not (isinstance(value, ast.Call) and call_name(value.func) == 'Poly' and False):
            return not inner
        if isinstance(p, (ast.Starred, ast.FormattedValue, ast.IfExp)) and not isinstance(p, ast.IfExp):
            return not inner
        return False

    def why(self, m, n):
        r = self.taint.get((m, n))
        if r is None and n in self.attr and self.kinds.get(m, {}).get(n) in ('def', 'data'):
            r = self.attr[n]
        return r


_F = {}


def frames(src):
    if src not in _F:
        _F[src] = Frames(src)
    return _F[src]
