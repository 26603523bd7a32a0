"""Whole-check mutation campaign: random mutants of every function, each judged by the registered checks of the properties that the file
carries (from a copy of /verif, against a copy of the sources).  Lists the mutants no check reports.
usage: campaign.py per_function [file pattern] [seed]   -> lines on stdout"""
import ast, copy, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.argv_, sys.argv = sys.argv, ['x', '--none']
src = open(os.path.join(HERE, 'mutate.py')).read().split("def main():")[0]
exec(src)
sys.argv = sys.argv_
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
assert os.path.exists(V + '/check.py')
MAP = [('poly.py', '01 02 19'), ('utils.py', '03 07 18'), ('ito_mom.py', '04 05'), ('itos_mom.py', '04 06'), ('ito_cond_mom.py', '04 07'), ('cpp_mom.py', '08'),
       ('euler.py', '20'), ('mdl_1fsv/cond_cmom', '09 17 18'), ('mdl_1fsv/cov', '10 16 17'), ('mdl_1fsv/', '09 16 17'), ('mdl_1fsvj/cov', '10 16 17'), ('mdl_1fsvj/', '11 16 17'),
       ('mdl_2fsv/cov', '10 16 17'), ('mdl_2fsv/', '12 16 17'), ('mdl_2fsvj/cov', '10 16 17'), ('mdl_2fsvj/', '11 16 17'), ('mdl_srjd/', '13 04 17 18'), ('mdl_svvj/cond2_cmom', '14 17 18'), ('mdl_svvj/', '14 17'),
       ('mdl_svij/', '14 17'), ('mdl_svcj/cond2', '14 17'), ('mdl_svcj/', '15 04 17 18')]
SKIP = {'main', '__init__'}


def props(rel):
    return next((['C' + x for x in p.split()] for k, p in MAP if k in rel), [])


def main():
    per = int(sys.argv[1])
    pat = sys.argv[2] if len(sys.argv) > 2 else ''
    rnd = random.Random(int(sys.argv[3]) if len(sys.argv) > 3 else 1)
    jobs = []
    for root, _, fs in sorted(os.walk(SRC + '/ajdmom')):
        for f in sorted(fs):
            rel = os.path.relpath(os.path.join(root, f), SRC)
            if not f.endswith('.py') or not re.search(pat, rel) or not props(rel) or f == '__init__.py':
                continue
            tree = ast.parse(open(os.path.join(root, f)).read())
            fns = [n for n in ast.walk(tree) if isinstance(n, ast.FunctionDef) and n.name not in SKIP]
            for fi, fn in enumerate(fns):
                ss = sites(fn)
                rnd.shuffle(ss)
                k = 0
                for d, i, mu in ss:
                    if k >= per:
                        break
                    t2 = copy.deepcopy(tree)
                    fn2 = [n for n in ast.walk(t2) if isinstance(n, ast.FunctionDef) and n.name not in SKIP][fi]
                    mu(list(ast.walk(fn2))[i])
                    try:
                        code = ast.unparse(ast.fix_missing_locations(t2))
                        compile(code, 'x', 'exec')
                    except Exception:
                        continue
                    k += 1
                    jobs.append((rel, fn.name, d, code))
    print(len(jobs), 'mutants', flush=True)

    def run(job):
        rel, name, d, code = job
        tmp = tempfile.mkdtemp(prefix='camp')
        try:
            shutil.copytree(SRC + '/ajdmom', tmp + '/src/ajdmom', ignore=shutil.ignore_patterns('__pycache__'))
            shutil.copytree(V, tmp + '/v', ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence', '__pycache__'))
            open(os.path.join(tmp, 'src', rel), 'w').write(code)
            env = dict(os.environ, AJDMOM_SRC=tmp + '/src', PYTHONDONTWRITEBYTECODE='1')
            t0, out = time.time(), ''
            for p in props(rel):
                try:
                    r = subprocess.run(['python3-vt', '-B', tmp + '/v/check.py', p], env=env, capture_output=True, text=True, timeout=900)
                except subprocess.TimeoutExpired:
                    return rel, name, d, f'TIMEOUT {p}'
                out += f'{p}:{r.returncode} '
                if r.returncode == 1:
                    return rel, name, d, 'caught ' + p + (' nfif' if 'no-failing' in r.stdout else '')
                if r.returncode:
                    return rel, name, d, f'CRASH {p} {r.stderr[-300:]!r}'
            return rel, name, d, 'SURVIVED ' + out
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    n = c = 0
    with ThreadPoolExecutor(3) as ex:
        for rel, name, d, o in ex.map(run, jobs):
            n += 1
            c += o.startswith('caught')
            if not o.startswith('caught') or 'nfif' in o:
                print(f'{rel}:{name} | {d} | {o}', flush=True)
    print(n, 'run', c, 'caught', flush=True)


main()
