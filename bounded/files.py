"""Run-time contract checker of the writers and the splitters: random formulas, file names and pre-existing files; the written file
is read back according to its header.  Files are written only inside a scratch directory that is removed."""
import ast, contextlib, csv, io, os, random, tempfile, time
from fractions import Fraction as F
from .core import fn, Missing

KINDS = {'plain': (), 'first-order jumps': ('l_{1:n}', 'o_{2:n}'), 'jumps': ('l_{1:n}', 'o_{1:n}', 'p_{2:n}', 'q_{2:n}')}
NAMES = ('e^{-kh}', 'h', 'k^{-}', 'theta', 'sigma_v', 'rho', 'sqrt(1-rho^2)', 'v_{n-1}', 'mu', '(n_1m*k1+n_2m*k2)^{-i_m},...,(n_11*k1+n_21*k2)^{-i_1}', 'v0-theta', 't')


def read_txt(path):
    L = open(path, encoding='utf-8').read().split('\n')
    head, rest = L[0].rsplit(': value(in fraction)', 1)
    out = []
    for ln in L[1:]:
        if not ln.strip(): continue
        k, v = ln.rsplit(': ', 1)
        n, d = ast.literal_eval(v)
        out.append((ast.literal_eval(k), F(n, d)))
    return tuple(ast.literal_eval(head)), out


def read_csv(path):
    R = list(csv.reader(open(path, encoding='utf-8', newline='')))
    head, out = R[0], []
    for r in R[1:]:
        if len(r) != len(head): raise AssertionError(f'row {r} does not match header {head}')
        out.append((tuple(ast.literal_eval(x) for x in r[:-2]), F(int(r[-2]), int(r[-1]))))
    if head[-2:] != ['num', 'den']: raise AssertionError(f'header {head}')
    return tuple(head[:-2]), out


def formula(rnd, kind, levels, terms, nA=None):
    Poly = fn('poly', 'Poly')
    idx = KINDS[kind]
    names = list(NAMES)
    rnd.shuffle(names)
    a = nA if nA is not None else rnd.randint(0 if idx else 1, 6)
    b = rnd.randint(0, min(3, len(names) - a)) if idx else 0
    kf = tuple(names[:a]) + idx + tuple(names[a:a + b])
    def comp(nm):
        if nm.startswith('(n_1m'): return tuple((rnd.randint(-1, 2), rnd.randint(0, 2), rnd.randint(1, 3)) for _ in range(rnd.randint(0, 2)))
        return rnd.choice([0, 1, -1, 2, -3, 10, 123, -2345, 10 ** 6])
    d = {}
    for _ in range(terms):
        n = rnd.choice(levels)
        key = tuple(tuple(rnd.randint(-2, 3) for _ in range(n if nm.endswith('{1:n}') else max(n - 1, 0))) if nm in idx else comp(nm) for nm in kf)
        d[key] = rnd.choice([F(rnd.randint(-9, 9) or 1, rnd.randint(1, 9)), F(10 ** 20 + 1, 3 ** 30), rnd.randint(1, 5), -F(1, 7), -F(7 ** 40, 11 ** 25 + 2), 10 ** 30 + 1, F(1, 10 ** 45 + 7)])
    p = Poly(d)
    p.set_keyfor(kf)
    return p, n if terms else 0


def spell(kf, key):
    names, out = [], []
    for nm, x in zip(kf, key):
        if nm in KINDS['jumps'] or nm == 'o_{2:n}':
            s = int(nm[3])
            out += list(x); names += [nm[0] + str(i + s) for i in range(len(x))]
        else: out.append(x); names.append(nm)
    return tuple(names), tuple(out)


def filename(rnd, ext):
    other = '.csv' if ext == '.txt' else '.txt'
    stem = rnd.choice(['form', 'my.form', 'a' + ext + 'b', 'x' + ext + '.old', 'x' + ext + other, 'x' + other, 'x' + other + ext, 'x' + ext.upper(), 'x' + ext[1:],
                       'x.' , 'x ' , ext + 'x', 'x' + ext[:-1], 'x' + ext + ext, 'fo rm-1_2', 'x' + ext + ' '])
    return rnd.choice([stem, stem + ext, stem])


@contextlib.contextmanager
def in_dir(d):
    old = os.getcwd()
    os.chdir(d)
    try: yield
    finally: os.chdir(old)


def write_once(which, rnd):
    ext = '.txt' if which == 'write_to_txt' else '.csv'
    kind = rnd.choice(list(KINDS))
    mixed = kind != 'plain' and rnd.random() < (.4 if ext == '.txt' else .15)
    lev = [0, 1, 2, 3] if mixed else [rnd.choice((0, 1, 2, 3, 4, 12))]
    p, n = formula(rnd, kind, lev, rnd.choice([0, 1, 2, 5, 9]))
    d0, kf = dict(p), tuple(p.keyfor)
    levels = {len(k[kf.index('l_{1:n}')]) for k in d0} if kind != 'plain' else set()
    name = filename(rnd, ext)
    sub = rnd.choice(['', '', 'dir' + ext])
    inp = f'{which}({name!r}) of {d0} over {kf}'
    bad = lambda want, got: {'input': inp[:900], 'expected': str(want)[:400], 'actual': str(got)[:400]}
    with tempfile.TemporaryDirectory() as td, tempfile.TemporaryDirectory() as cwd, in_dir(cwd), contextlib.redirect_stdout(io.StringIO()):
        folder = os.path.join(td, sub) if sub else td
        os.makedirs(folder, exist_ok=True)
        want = name if name.endswith(ext) else name + ext
        if rnd.random() < .5:
            with open(os.path.join(folder, want), 'w') as f: f.write('old content\n' * 50)
        w = getattr(p, which, None)
        if w is None: raise Missing(which)
        try: w(os.path.join(folder, name))
        except Exception as e:
            if ext == '.csv' and len(levels) > 1: return None
            return bad('written', repr(e))
        if ext == '.csv' and len(levels) > 1: return bad('refused: terms of different summation levels', os.listdir(folder))
        if os.listdir(folder) != [want]: return bad(f'file {want!r}', os.listdir(folder))
        if dict(p) != d0 or tuple(p.keyfor) != kf: return bad('formula unchanged', dict(p))
        try: names, rows = (read_txt if ext == '.txt' else read_csv)(os.path.join(folder, want))
        except Exception as e: return bad('a file that reads back', repr(e) + open(os.path.join(folder, want)).read()[:300])
        if ext == '.txt': hn, rw = kf, [(k, F(c)) for k, c in d0.items()]
        else:
            hn, rw = spell(kf, next(iter(d0)))[0] if d0 else None, [(spell(kf, k)[1], F(c)) for k, c in d0.items()]
        if hn is not None and tuple(names) != hn: return bad(f'header {hn}', names)
        if sorted(map(str, rows)) != sorted(map(str, rw)): return bad(rw, rows)


def classify_once(rnd):
    p, _ = formula(rnd, 'jumps', [0, 1, 2, 3][:rnd.randint(1, 4)], rnd.choice([0, 1, 4, 9, 14]), nA=6)
    d0, kf = dict(p), tuple(p.keyfor)
    inp = f'classify({d0}) over {kf}'
    bad = lambda want, got: {'input': inp[:900], 'expected': str(want)[:500], 'actual': str(got)[:500]}
    try: qs = fn('mdl_svvj.cond2_cmom', 'classify')(p)
    except Missing: raise
    except Exception as e: return bad('classified', repr(e))
    if dict(p) != d0 or tuple(p.keyfor) != kf: return bad('formula unchanged', dict(p))
    want = [(kf if n else kf[:6] + kf[10:], {(k if n else k[:6] + k[10:]): v for k, v in d0.items() if len(k[6]) == n}) for n in sorted({len(k[6]) for k in d0})]
    try: got = [(tuple(q.keyfor), dict(q)) for q in qs]
    except Exception as e: return bad(want, f'{qs!r} {e!r}')
    if got != want: return bad(want, got)


def subpolys_once(rnd):
    Poly = fn('poly', 'Poly')
    p, _ = formula(rnd, 'jumps', [0, 1, 2], rnd.choice([1, 4, 9]), nA=6)
    kf = ('e^{kt}', 't', 'k^{-}', 'v0-theta', 'theta', 'sigma') + KINDS['jumps'] + ('sigma/2k', 'rho-sigma/2k', 'sqrt(1-rho^2)')
    ints = lambda t: tuple(x if isinstance(x, int) else len(x) for x in t)
    q = Poly({ints(k[:6]) + k[6:10] + (rnd.randint(0, 3), rnd.randint(0, 2), 2 * rnd.randint(0, 1)): v for k, v in p.items()})
    q.set_keyfor(kf)
    d0, nth = dict(q), rnd.randint(0, 12)
    w = fn('mdl_svvj.cond2_cmom', 'write_to_subpolys')
    inp = f'write_to_subpolys({d0}, {nth})'
    bad = lambda want, got: {'input': inp[:900], 'expected': str(want)[:500], 'actual': str(got)[:500]}
    old = os.getcwd()
    with tempfile.TemporaryDirectory() as td, contextlib.redirect_stdout(io.StringIO()):
        os.chdir(td)
        try:
            try: w(q, nth)
            except Exception as e: return bad('written', repr(e))
            levs = sorted({len(k[6]) for k in d0})
            want = [f'svvj-cond-cmoment-{nth}-formula-{j}.txt' for j in range(len(levs))]
            if sorted(os.listdir('.')) != sorted(want): return bad(want, os.listdir('.'))
            if dict(q) != d0: return bad('formula unchanged', dict(q))
            for j, n in enumerate(levs):
                names, rows = read_txt(want[j])
                kn = ('e^{-kt}',) + (kf[1:] if n else kf[1:6] + kf[10:])
                rw = sorted(str(((-k[0],) + (k[1:] if n else k[1:6] + k[10:]), F(v))) for k, v in d0.items() if len(k[6]) == n)
                if names != kn or sorted(map(str, rows)) != rw: return bad((kn, rw), (names, rows))
        finally: os.chdir(old)


def once(name, rnd):
    if name.startswith('write_to_') and name != 'write_to_subpolys': return write_once(name, rnd)
    return classify_once(rnd) if name == 'classify' else subpolys_once(rnd)


def search(qual, seed, tries, seconds=30):
    name, t0, ran, rnd = qual.rsplit('.', 1)[1], time.time(), 0, random.Random(seed)
    for _ in range(tries * 4):
        if time.time() - t0 > seconds: break
        try: r = once(name, rnd)
        except Missing as e: return {'ran': ran, 'ok': ran, 'skip': str(e)}
        ran += 1
        if r: return {'ran': ran, 'ok': ran - 1, 'witness': r}
    return {'ran': ran, 'ok': ran}


def cases(names, tier):
    out, n = [], 150 if tier == 'quick' else 4000
    def case(name, s):
        def f():
            rnd = random.Random(s)
            for _ in range(n):
                r = once(name, rnd)
                if r: return r
        return f
    return [(f'{name} random inputs {s}', case(name, s)) for name in names for s in (1, 2, 3)]
