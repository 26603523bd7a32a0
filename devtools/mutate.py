"""Mutation test of the verifier: mutate one function of /repo in a scratch copy, verify its units there, and list the
mutants the verifier still accepts (each must be an equivalent mutant).
usage: mutate.py contracts_module qualname_pattern [max] [-b]      (-b: also run the concrete search on undecided ones)"""
import ast, copy, os, shutil, subprocess, sys, tempfile, json, random
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = '/repo/src'


def sites(fn):
    """list of (description, mutate(fn copy)) by position"""
    out = []
    nodes = list(ast.walk(fn))
    start = 1
    for i, n in enumerate(nodes):
        def add(desc, f, i=i):
            out.append((f'{getattr(nodes[i], "lineno", "?")}: {desc}', i, f))
        if isinstance(n, ast.Constant) and isinstance(n.value, int) and not isinstance(n.value, bool):
            add(f'{n.value}->{n.value + 1}', lambda m: setattr(m, 'value', m.value + 1))
            add(f'{n.value}->{n.value - 1}', lambda m: setattr(m, 'value', m.value - 1))
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            add(f'{n.value}->{not n.value}', lambda m: setattr(m, 'value', not m.value))
        if isinstance(n, ast.BinOp):
            for op in (ast.Add, ast.Sub, ast.Mult):
                if not isinstance(n.op, op):
                    add(f'{type(n.op).__name__}->{op.__name__}', lambda m, op=op: setattr(m, 'op', op()))
        if isinstance(n, ast.AugAssign):
            for op in (ast.Add, ast.Sub, ast.Mult):
                if not isinstance(n.op, op):
                    add(f'aug {type(n.op).__name__}->{op.__name__}', lambda m, op=op: setattr(m, 'op', op()))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            add('drop minus', lambda m: setattr(m, 'op', ast.UAdd()))
        if isinstance(n, ast.Compare):
            for op in (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Eq, ast.NotEq):
                if type(n.ops[0]) in (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Eq, ast.NotEq) and not isinstance(n.ops[0], op):
                    add(f'{type(n.ops[0]).__name__}->{op.__name__}', lambda m, op=op: m.ops.__setitem__(0, op()))
        if isinstance(n, (ast.If, ast.While)):
            add('negate test', lambda m: setattr(m, 'test', ast.UnaryOp(ast.Not(), m.test)))
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            names = sorted({x.id for x in nodes if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} |
                           {a.arg for a in fn.args.args})
            for nm in names:
                if nm != n.id and n.id in names:
                    add(f'{n.id}->{nm}', lambda m, nm=nm: setattr(m, 'id', nm))
        for field in ('body', 'orelse'):
            b = getattr(n, field, None)
            if isinstance(b, list):
                for j, st in enumerate(b):
                    if isinstance(st, (ast.Expr, ast.Assign, ast.AugAssign, ast.If, ast.Break, ast.Continue, ast.For)) and not \
                            (isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant)):
                        add(f'delete "{ast.unparse(st)[:40]}"', lambda m, field=field, j=j: getattr(m, field).__setitem__(j, ast.Pass()))
        if isinstance(n, (ast.Tuple, ast.List)) and len(n.elts) > 1 and isinstance(n.ctx, ast.Load):
            for j in range(len(n.elts) - 1):
                add(f'swap elements {j},{j + 1}', lambda m, j=j: m.elts.__setitem__(slice(j, j + 2), m.elts[j:j + 2][::-1]))
        if isinstance(n, ast.Call) and len(n.args) > 1:
            add('swap args', lambda m: m.args.__setitem__(slice(0, 2), m.args[:2][::-1]))
    return out


def main():
    mod, pat = sys.argv[1], sys.argv[2]
    mx = int(sys.argv[3]) if len(sys.argv) > 3 and sys.argv[3].isdigit() else 60
    sys.path.insert(0, HERE)
    import importlib
    importlib.import_module('contracts.' + mod)
    from engine import unit as U
    quals = sorted({u.qual for n, u in U.UNITS.items() if pat in n and u.qual.rsplit('.', 1)[0]})
    jobs = []
    for q in quals:
        m, f = q.rsplit('.', 1)
        cls = m.endswith('.Poly')
        m = m[:-5] if cls else m
        path = os.path.join(SRC, *m.split('.')) + '.py'
        tree = ast.parse(open(path).read())
        fn = [x for x in ast.walk(tree) if isinstance(x, ast.FunctionDef) and x.name == f][0]
        ss = sites(fn)
        rnd = random.Random(5)
        rnd.shuffle(ss)
        for d, i, mu in ss[:mx]:
            t2 = copy.deepcopy(tree)
            fn2 = [x for x in ast.walk(t2) if isinstance(x, ast.FunctionDef) and x.name == f][0]
            node = list(ast.walk(fn2))[i]
            mu(node)
            try:
                code = ast.unparse(ast.fix_missing_locations(t2))
                compile(code, 'x', 'exec')
            except Exception:
                continue
            jobs.append((q, d, os.path.relpath(path, SRC), code))

    def run(job):
        q, d, rel, code = job
        tmp = tempfile.mkdtemp(prefix='mut')
        try:
            shutil.copytree(SRC + '/ajdmom', tmp + '/ajdmom', ignore=shutil.ignore_patterns('__pycache__', '*.so'))
            with open(os.path.join(tmp, rel), 'w') as fh:
                fh.write(code)
            env = dict(os.environ, AJDMOM_SRC=tmp, PYTHONDONTWRITEBYTECODE='1')
            try:
                r = subprocess.run([sys.executable, '-B', __file__, '--one', mod, q] + (['-b'] if '-b' in sys.argv else []),
                                   env=env, capture_output=True, text=True, timeout=200)
                out = r.stdout.strip().splitlines()
                return q, d, out[-1] if out else 'crash ' + r.stderr[-200:]
            except subprocess.TimeoutExpired:
                return q, d, 'timeout'
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    from collections import Counter
    cnt = Counter()
    with ThreadPoolExecutor(7) as ex:
        for q, d, o in ex.map(run, jobs):
            k = o.split(' ')[0]
            cnt[(q, k)] += 1
            if k not in ('failed', 'refuted') or '-v' in sys.argv:
                print(q, '|', d, '|', o[:200])
    print(cnt)


def one():
    sys.path.insert(0, HERE)
    import importlib
    importlib.import_module('contracts.' + sys.argv[2])
    from engine import unit as U
    st, why = 'discharged', ''
    for n, u in list(U.UNITS.items()):
        if u.qual != sys.argv[3]:
            continue
        r = U.verify(u)
        if r['status'] != 'discharged':
            if '-b' in sys.argv:
                try:
                    c = U.concrete_search(u, r.get('_model'), seconds=10)
                except Exception as e:
                    c = {'ran': 0, 'skip': repr(e)}
                if c.get('witness'):
                    print('refuted', c['witness'])
                    return
                r['reason'] = f"[conc ran {c['ran']} ok {c.get('ok')} {c.get('skip')}] " + (r.get('reason') or '')
            if st != 'failed':
                st, why = r['status'], r.get('reason') or ''
    print(st, why.replace('\n', ' ')[-300:])


if sys.argv[1] == '--one':
    one()
else:
    main()
