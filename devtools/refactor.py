"""Behaviour-preserving rewritings of the whole package, to see that the checks stay quiet on them.
usage: refactor.py KIND OUTDIR [probability] [seed]   -- writes OUTDIR/src/ajdmom with KIND applied wherever it fits"""
import ast, copy, os, random, shutil, sys
SRC = os.environ.get('AJDMOM_SRC0', '/repo/src')


def names_stored(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}


def names_loaded(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}


def has(n, *ts):
    return any(isinstance(x, ts) for x in ast.walk(n))


def own_break(body):
    """break/continue that belongs to this loop body"""
    for s in body:
        if isinstance(s, (ast.Break, ast.Continue)):
            return True
        if isinstance(s, (ast.For, ast.While)):
            if own_break(s.orelse): return True
            continue
        for f in ('body', 'orelse', 'finalbody'):
            if own_break(getattr(s, f, [])): return True
    return False


class Kind:
    def __init__(self, rnd, p):
        self.rnd, self.p, self.n, self.helpers = rnd, p, 0, []

    def go(self):
        ok = self.rnd.random() < self.p
        self.n += ok
        return ok

    def fresh(self, s='aux'):
        self.k = getattr(self, 'k', 0) + 1
        return f'{s}_{self.k}_'

    def fn(self, f):
        f.body = self.block(f.body)

    def block(self, b):
        out = []
        for s in b:
            for f in ('body', 'orelse', 'finalbody'):
                if getattr(s, f, None) and not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    setattr(s, f, self.block(getattr(s, f)))
            r = self.stmt(s)
            out += r if isinstance(r, list) else [r]
        return self.after(out)

    def after(self, b): return b
    def stmt(self, s): return s


class Rename(Kind):
    def fn(self, f):
        if has(f, ast.Lambda, ast.Global, ast.Nonlocal): return
        par = {a.arg for a in ast.walk(f.args) if isinstance(a, ast.arg)}
        loc = sorted(names_stored(f) - par)
        m = {x: x + '_r' for x in loc if self.go()}
        for x in ast.walk(f):
            if isinstance(x, ast.Name) and x.id in m: x.id = m[x.id]


class Invert(Kind):
    def stmt(self, s):
        if isinstance(s, ast.If) and s.orelse and not (len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If)) and self.go():
            s.test = ast.UnaryOp(ast.Not(), s.test)
            s.body, s.orelse = s.orelse, s.body
        return s


class EarlyElse(Kind):
    def after(self, b):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)) and b[i + 1:] and self.go():
                s.orelse = b[i + 1:]
                return b[:i + 1]
        return b


class DropElse(Kind):
    def after(self, b):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)) and self.go():
                rest, s.orelse = s.orelse, []
                return b[:i + 1] + rest + b[i + 1:]
        return b


class While(Kind):
    def stmt(self, s):
        if isinstance(s, ast.For) and isinstance(s.target, ast.Name) and isinstance(s.iter, ast.Call) and getattr(s.iter.func, 'id', '') == 'range' \
                and len(s.iter.args) <= 2 and not own_break(s.body) and not s.orelse and s.target.id not in names_stored(ast.Module(s.body, [])) and self.go():
            i, hi = self.fresh('i'), self.fresh('hi')
            a = s.iter.args
            lo, up = (ast.Constant(0), a[0]) if len(a) == 1 else a
            asg = lambda n, v: ast.Assign([ast.Name(n, ast.Store())], v)
            return [asg(i, lo), asg(hi, up), ast.While(ast.Compare(ast.Name(i, ast.Load()), [ast.Lt()], [ast.Name(hi, ast.Load())]),
                    [asg(s.target.id, ast.Name(i, ast.Load()))] + s.body + [ast.AugAssign(ast.Name(i, ast.Store()), ast.Add(), ast.Constant(1))], [])]
        return s


class Temps(Kind):
    """call arguments that are expressions get a name first"""
    def stmt(self, s):
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and self.go():
            pre = []
            for i, a in enumerate(s.value.args):
                if isinstance(a, (ast.BinOp, ast.Tuple, ast.Subscript, ast.Call)) :
                    t = self.fresh('t')
                    pre.append(ast.Assign([ast.Name(t, ast.Store())], a))
                    s.value.args[i] = ast.Name(t, ast.Load())
            return pre + [s]
        if isinstance(s, ast.Return) and isinstance(s.value, (ast.BinOp, ast.Call, ast.Subscript)) and self.go():
            t = self.fresh('res')
            return [ast.Assign([ast.Name(t, ast.Store())], s.value), ast.Return(ast.Name(t, ast.Load()))]
        return s


class Helper(Kind):
    """right-hand sides over plain names move to a module-level helper function"""
    def stmt(self, s):
        v = s.value if isinstance(s, ast.Assign) else None
        if isinstance(v, (ast.BinOp, ast.Tuple)) and not has(v, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.Starred, ast.NamedExpr):
            calls = {id(c.func) for c in ast.walk(v) if isinstance(c, ast.Call)}
            fs = {n.id for n in ast.walk(v) if isinstance(n, ast.Name) and id(n) in calls}
            ns = sorted({n.id for n in ast.walk(v) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)} - self.mod)
            if (fs & set(ns)) - self.builtin or not self.go(): return s
            ns = [n for n in ns if n not in self.builtin]
            h = self.fresh('_mk')
            self.helpers.append(ast.FunctionDef(h, ast.arguments([], [ast.arg(n) for n in ns], None, [], [], None, []), [ast.Return(v)], [], None, None, []))
            s.value = ast.Call(ast.Name(h, ast.Load()), [ast.Name(n, ast.Load()) for n in ns], [])
        return s


class LoopHelper(Kind):
    """the body of an innermost for loop that only mutates objects moves to a helper"""
    def stmt(self, s):
        if isinstance(s, ast.For) and not s.orelse and not has(ast.Module(s.body, []), ast.For, ast.While, ast.Return, ast.Yield, ast.Lambda) and not own_break(s.body):
            st = names_stored(ast.Module(s.body, []))
            body = ast.Module(s.body, [])
            # every local written in the body is dead outside and assigned before use in the body
            if any(isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) for x in ast.walk(body)): return s
            if st & (self.used_count_outside(s)): return s
            ns = sorted((names_loaded(body) - st - self.mod - self.builtin))
            if not self.first_assigned(s.body, st) or not self.go(): return s
            h = self.fresh('_step')
            self.helpers.append(ast.FunctionDef(h, ast.arguments([], [ast.arg(n) for n in ns], None, [], [], None, []), s.body, [], None, None, []))
            s.body = [ast.Expr(ast.Call(ast.Name(h, ast.Load()), [ast.Name(n, ast.Load()) for n in ns], []))]
        return s

    def first_assigned(self, body, st):
        seen = set()
        for x in body:
            if isinstance(x, ast.Assign):
                if names_loaded(x.value) & (st - seen): return False
                seen |= names_stored(x)
            elif names_loaded(x) & (st - seen): return False
            elif isinstance(x, ast.If): seen |= (names_stored(ast.Module(x.body, [])) & names_stored(ast.Module(x.orelse, [])))
        return True

    def used_count_outside(self, loop):
        inside = {id(x) for x in ast.walk(loop)}
        return {x.id for x in ast.walk(self.f) if isinstance(x, ast.Name) and id(x) not in inside}


class Items(Kind):
    """for k in p: ... p[k] ...  ->  for k, v in p.items(): ... v ..."""
    def stmt(self, s):
        if isinstance(s, ast.For) and isinstance(s.target, ast.Name) and isinstance(s.iter, ast.Name):
            p, k = s.iter.id, s.target.id
            hits = [x for x in ast.walk(ast.Module(s.body, [])) if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id == p
                    and isinstance(x.slice, ast.Name) and x.slice.id == k]
            if not hits or any(not isinstance(x.ctx, ast.Load) for x in hits) or {p, k} & names_stored(ast.Module(s.body, [])) or not self.go(): return s
            v = self.fresh('v')
            class T(ast.NodeTransformer):
                def visit_Subscript(t, x):
                    t.generic_visit(x)
                    return ast.Name(v, ast.Load()) if x in hits else x
            s.body = [T().visit(x) for x in s.body]
            s.target = ast.Tuple([ast.Name(k, ast.Store()), ast.Name(v, ast.Store())], ast.Store())
            s.iter = ast.Call(ast.Attribute(s.iter, 'items', ast.Load()), [], [])
        return s


class Reorder(Kind):
    """adjacent independent simple assignments change places"""
    def after(self, b):
        b = list(b)
        pure = lambda s: isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and not has(s.value, ast.NamedExpr) and \
            not any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr not in ('comb', 'factorial', 'exp', 'sqrt') for x in ast.walk(s.value))
        i = 0
        while i + 1 < len(b):
            x, y = b[i], b[i + 1]
            if pure(x) and pure(y) and not (names_stored(x) & (names_loaded(y) | names_stored(y))) and not (names_stored(y) & names_loaded(x)) and self.go():
                b[i], b[i + 1] = y, x
                i += 1
            i += 1
        return b


class Commute(Kind):
    """a + b -> b + a, a * b -> b * a where both sides are numbers by their look (names of scalars, subscripts of keys, products of those)"""
    def fn(self, f):
        me = self
        def num(x):
            if isinstance(x, ast.Constant): return isinstance(x.value, (int, float))
            if isinstance(x, ast.Subscript): return isinstance(x.value, ast.Name) and x.value.id in ('k', 'k1', 'k2', 'K', 'key', 'kv') and isinstance(x.slice, ast.Constant)
            if isinstance(x, ast.Name): return x.id in ('i', 'j', 'n', 'm', 'n1', 'n2', 'n3', 'n4', 'n5', 'l', 'c', 'val', 'h', 'theta', 'sigma', 'rho')
            if isinstance(x, ast.BinOp): return num(x.left) and num(x.right)
            return False
        for x in ast.walk(f):
            if isinstance(x, ast.BinOp) and isinstance(x.op, (ast.Add, ast.Mult)) and num(x.left) and num(x.right) and me.go():
                x.left, x.right = x.right, x.left


class Continue(Kind):
    """last statement of a loop `if c: body`  ->  `if not c: continue` + body"""
    def stmt(self, s):
        if isinstance(s, (ast.For, ast.While)) and isinstance(s.body[-1], ast.If) and not s.body[-1].orelse and self.go():
            t = s.body[-1]
            s.body = s.body[:-1] + [ast.If(ast.UnaryOp(ast.Not(), t.test), [ast.Continue()], [])] + t.body
        return s


class Compr(Kind):
    """x = [e for ...]  ->  loop with append;  and  x = []; for ..: x.append(e)  ->  comprehension"""
    def after(self, b):
        out = []
        for s in b:
            if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.ListComp) and s.targets[0].id not in names_loaded(s.value) and self.go():
                t = s.targets[0].id
                body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(t, ast.Load()), 'append', ast.Load()), [s.value.elt], []))]
                for g in reversed(s.value.generators):
                    for c in reversed(g.ifs): body = [ast.If(c, body, [])]
                    body = [ast.For(g.target, g.iter, body, [], None)]
                out += [ast.Assign([ast.Name(t, ast.Store())], ast.List([], ast.Load()))] + body
            elif out and isinstance(s, ast.For) and isinstance(out[-1], ast.Assign) and isinstance(out[-1].value, ast.List) and not out[-1].value.elts and len(s.body) == 1 \
                    and isinstance(s.body[0], ast.Expr) and isinstance(s.body[0].value, ast.Call) and isinstance(s.body[0].value.func, ast.Attribute) \
                    and s.body[0].value.func.attr == 'append' and isinstance(s.body[0].value.func.value, ast.Name) and isinstance(out[-1].targets[0], ast.Name) \
                    and s.body[0].value.func.value.id == out[-1].targets[0].id and out[-1].targets[0].id not in names_loaded(s.body[0].value.args[0]) and self.go():
                out[-1].value = ast.ListComp(s.body[0].value.args[0], [ast.comprehension(s.target, s.iter, [], 0)])
            else:
                out.append(s)
        return out


class Reversed(Kind):
    """for i in range(n) with a body that only adds to polynomials: the other way round"""
    def stmt(self, s):
        if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and getattr(s.iter.func, 'id', '') == 'range' and len(s.iter.args) == 1 and not own_break(s.body):
            body = ast.Module(s.body, [])
            ok = all(isinstance(x, (ast.Assign, ast.Expr, ast.For)) for x in s.body) and all(
                isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Attribute) and x.value.func.attr == 'add_keyval' for x in ast.walk(body) if isinstance(x, ast.Expr))
            ok = ok and LoopHelper.first_assigned(self, s.body, names_stored(body)) and not has(body, ast.AugAssign, ast.Return, ast.While)
            if ok and not (names_stored(body) | {s.target.id}) & LoopHelper.used_count_outside(self, s) and self.go():
                s.iter = ast.Call(ast.Name('reversed', ast.Load()), [s.iter], [])
        return s


class AugPlain(Kind):
    """x += e -> x = x + e for names"""
    def stmt(self, s):
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and not isinstance(s.value, (ast.List, ast.ListComp)) and self.go():
            return ast.Assign([ast.Name(s.target.id, ast.Store())], ast.BinOp(ast.Name(s.target.id, ast.Load()), s.op, s.value))
        return s


class IfExp(Kind):
    """x = a if c else b <-> if statement"""
    def stmt(self, s):
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp) and self.go():
            v = s.value
            return ast.If(v.test, [ast.Assign(s.targets, v.body)], [ast.Assign(s.targets, v.orelse)])
        if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1 and all(isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name) and len(x.targets) == 1 for x in s.body + s.orelse) \
                and s.body[0].targets[0].id == s.orelse[0].targets[0].id and self.go():
            return ast.Assign(s.body[0].targets, ast.IfExp(s.test, s.body[0].value, s.orelse[0].value))
        if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1 and isinstance(s.body[0], ast.Return) and isinstance(s.orelse[0], ast.Return) and self.go():
            return ast.Return(ast.IfExp(s.test, s.body[0].value, s.orelse[0].value))
        return s


class SetItem(Kind):
    """Poly(); set_keyfor; add_keyval(...) kept, but key tuples built in pieces: (a,b,c) -> (a,) + (b, c)"""
    def stmt(self, s):
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.Tuple) and isinstance(s.targets[0], ast.Name) and len(s.value.elts) > 1 and not has(s.value, ast.Starred) and self.go():
            i = self.rnd.randint(1, len(s.value.elts) - 1)
            e = s.value.elts
            s.value = ast.BinOp(ast.Tuple(e[:i], ast.Load()), ast.Add(), ast.Tuple(e[i:], ast.Load()))
        return s


class Noop(Kind):
    def after(self, b):
        out = []
        for s in b:
            if self.go() and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                out.append(ast.Assign([ast.Name(self.fresh('unused'), ast.Store())], ast.Constant(0)))
            out.append(s)
        return out


class Guard(Kind):
    """argument checks that never fire for documented arguments, asserts"""
    def fn(self, f):
        a = [x.arg for x in f.args.args if x.arg in ('n', 'm', 'l', 'n1', 'n2', 'n3') ]
        i = 1 if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
        if a and self.go():
            f.body.insert(i, ast.Assert(ast.Call(ast.Name('isinstance', ast.Load()), [ast.Name(a[0], ast.Load()), ast.Name('object', ast.Load())], []), None))


class Alias(Kind):
    """add = poly.add_keyval; poly.add_keyval(...) -> add(...)"""
    def fn(self, f):
        for loop in [x for x in ast.walk(f) if isinstance(x, ast.For)]:
            recv = {x.func.value.id for x in ast.walk(loop) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'add_keyval' and isinstance(x.func.value, ast.Name)}
            for r in recv - names_stored(loop):
                if not self.go(): continue
                t = self.fresh('add')
                for x in ast.walk(loop):
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'add_keyval' and getattr(x.func.value, 'id', '') == r:
                        x.func = ast.Name(t, ast.Load())
                loop._pre = getattr(loop, '_pre', []) + [ast.Assign([ast.Name(t, ast.Store())], ast.Attribute(ast.Name(r, ast.Load()), 'add_keyval', ast.Load()))]
        f.body = self.block(f.body)

    def stmt(self, s):
        return getattr(s, '_pre', []) + [s]


KINDS = {c.__name__.lower(): c for c in (Rename, Invert, EarlyElse, DropElse, While, Temps, Helper, LoopHelper, Items, Reorder, Commute, Continue, Compr, Reversed, AugPlain, IfExp,
                                          SetItem, Noop, Guard, Alias)}
import builtins


def rewrite(code, kind, p, rnd):
    tree = ast.parse(code)
    k = KINDS[kind](rnd, p)
    k.builtin = set(dir(builtins))
    k.mod = {n for s in tree.body for n in ([a.asname or a.name.split('.')[0] for a in s.names] if isinstance(s, (ast.Import, ast.ImportFrom)) else [s.name] if isinstance(s, (ast.FunctionDef, ast.ClassDef)) else
             names_stored(s) if isinstance(s, ast.Assign) else [])}
    for f in [n for n in ast.walk(tree) if isinstance(n, ast.FunctionDef)]:
        k.f = f
        k.fn(f)
    at = max([i for i, s in enumerate(tree.body) if isinstance(s, (ast.Import, ast.ImportFrom))], default=-1) + 1
    tree.body[at:at] = k.helpers
    return ast.unparse(ast.fix_missing_locations(tree)), k.n


def main():
    kind, out = sys.argv[1:3]
    p = float(sys.argv[3]) if len(sys.argv) > 3 else 1.0
    rnd = random.Random(int(sys.argv[4]) if len(sys.argv) > 4 else 1)
    os.makedirs(out + '/src')
    shutil.copytree(SRC + '/ajdmom', out + '/src/ajdmom', ignore=shutil.ignore_patterns('__pycache__'))
    n = 0
    for root, _, fs in sorted(os.walk(out + '/src/ajdmom')):
        for f in sorted(fs):
            if f.endswith('.py'):
                c, m = rewrite(open(os.path.join(root, f)).read(), kind, p, rnd)
                n += m
                if m: open(os.path.join(root, f), 'w').write(c)
    print(kind, n, 'sites')


if __name__ == '__main__': main()
