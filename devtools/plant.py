"""Validate planted bugs: seeded/<id>/ from a candidate directory <cand>/<id>/{edit.py,demo.sh,meta.json,...}.
edit.py defines EDITS = [(file, old, new), ...].  usage: plant.py cand_dir id...   (runs the stable tests on a scratch copy)"""
import sys, os, json, shutil, subprocess, tempfile, importlib.util
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', AJDMOM_SEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')


def main():
    cand = sys.argv[1]
    base = json.load(open('/opt/vp/BASELINE.json'))['stable']
    for i in sys.argv[2:]:
        d = os.path.join(cand, i)
        w = tempfile.mkdtemp(prefix='plant')
        try:
            r = os.path.join(w, 'repo')
            subprocess.run(['cp', '-a', '/repo', r], check=True)
            ns = {}
            exec(open(d + '/edit.py').read(), ns)
            for f, old, new in ns['EDITS']:
                p = os.path.join(r, 'src/ajdmom', f)
                s = open(p).read()
                if s.count(old) != 1:
                    raise KeyError((i, f, s.count(old)))
                open(p, 'w').write(s.replace(old, new))
            diff = subprocess.run(['git', '-C', r, 'diff'], capture_output=True, text=True).stdout
            env = dict(ENV, PYTHONPATH=r + '/src:/opt/vp/plugins')
            demo = subprocess.run(['bash', os.path.abspath(d + '/demo.sh')], cwd=r, env=env, capture_output=True, text=True, timeout=300)
            if demo.returncode == 0:
                print(i, 'DEMO DOES NOT FAIL', demo.stdout[-300:], flush=True)
                continue
            clean = subprocess.run(['bash', os.path.abspath(d + '/demo.sh')], cwd='/repo', env=dict(ENV, PYTHONPATH='/repo/src'), capture_output=True, text=True, timeout=300)
            if clean.returncode != 0:
                print(i, 'DEMO FAILS ON CLEAN', clean.stdout[-300:], clean.stderr[-300:], flush=True)
                continue
            t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', 'tests', '-p', 'ajdmom_seed', '-p', 'no:cacheprovider', '-n', '6', '--dist', 'worksteal',
                                '--timeout=400', '--tb=no', '--ignore=tests/test_mdl_2fsv.py', '--ignore=tests/test_mdl_2fsvj.py', '-rf'], cwd=r, env=env, capture_output=True, text=True)
            failed = [l.split()[1].replace('/', '.').replace('.py::', '::') for l in t.stdout.splitlines() if l.startswith('FAILED')]
            bad = [f for f in failed if f in base]
            if bad or 'passed' not in t.stdout:
                print(i, 'TESTS FAIL', bad[:3], t.stdout[-200:] if not bad else '', flush=True)
                continue
            out = os.path.join(V, 'seeded', i)
            os.makedirs(out, exist_ok=True)
            for x in os.listdir(d):
                if x != 'edit.py':
                    shutil.copy(os.path.join(d, x), out)
            open(out + '/patch.diff', 'w').write(diff)
            print(i, 'PLANTED', demo.stdout.strip().splitlines()[-1:], flush=True)
        except Exception as e:
            print(i, "ERROR", e, flush=True)
        finally:
            shutil.rmtree(w, ignore_errors=True)


main()
