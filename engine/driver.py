"""Per-property run of the deductive layer: verify every unit the property rests on, transitively.

status of a unit
  discharged   every obligation generated from the current source was accepted
  refuted      an obligation failed; `witness` is a failing input of the real code, or (witness None) the verifier's
               counterexample could not be replayed
  bounded      not decided by the verifier (shape outside its reach, or a counterexample that the real code does not
               reproduce); the contract was checked at run time on `ran` inputs of the real code instead
  undecided    neither
"""
import importlib, json, os, signal, time, traceback
import multiprocessing as mp

LOGICAL = ['z3 (SMT) decides guards, domains and arithmetic side conditions',
           'canonical-form rewriting of exponential-polynomial sums (engine/expr.py, engine/sums.py)',
           'symbolic executor for the Python subset (engine/interp.py) -- validated by mutation, devtools/mutate.py']
ASSUME = ['machine floats are treated as mathematical reals; int and Fraction are exact',
          'collections.UserDict, fractions, math.comb/factorial behave as documented',
          'arguments have the types the documentation gives (int orders, Poly with keys as long as keyfor)']


def plan(pid):
    from contracts.index import PLAN
    return PLAN.get(pid)


def _none(name, why, seconds=0):
    from . import unit as U
    return {'unit': name, 'qual': U.UNITS[name].qual, 'status': 'undecided', 'reason': why, 'obligations': 0, 'paths': 0, 'queries': 0,
            'solver_s': 0, 'time': seconds, 'used': [], 'inlined': [], 'assumed': []}


def _job(args):
    from . import unit as U
    try:
        return _job1(args)
    except (_TO, U._TO):        # an alarm that rings between two of its handlers
        return {**_none(args[0], 'time limit'), 'concrete': {'ran': 0, 'ok': 0, 'skip': 'time'}, '_hasmodel': False}


def spread(pool, fn, todo, until, late):
    """fn over todo in the pool; late(x) stands for those that have not returned by then (a worker ended from outside never returns)"""
    jobs = [(x, pool.apply_async(fn, (x,))) for x in todo]
    out = []
    for x, j in jobs:
        try:
            out.append(j.get(max(0.01, until - time.time())))
        except mp.TimeoutError:
            out.append(late(x))
    return out


def _job1(args):
    name, tier, seconds, seed = args
    from . import unit as U
    u = U.UNITS[name]
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(seconds))
    try:
        r = U.verify(u)
    except _TO:
        r = _none(name, f'time limit {seconds}s', seconds)
    finally:
        signal.alarm(0)
    if r['status'] != 'discharged' and not r.get('signature'):
        try:
            c = U.concrete_search(u, r.get('_model'), seconds=30 if tier == 'quick' else 90, seed=seed,
                                  tries=u.tries if tier == 'quick' else 4 * u.tries)
        except (Exception, U._TO) as e:
            c = {'ran': 0, 'ok': 0, 'skip': f'{type(e).__name__}: {e}'}
        if not c.get('witness'):
            try:
                c['modular'] = U.modular_search(u, seed, 20 if tier == 'quick' else 60)
            except (Exception, U._TO) as e:
                c['modular'] = {'skip': f'{type(e).__name__}: {e}'}
        r['concrete'] = c
    r.pop('_pc', None)
    r['_hasmodel'] = r.pop('_model', None) is not None
    return r


class _TO(BaseException):
    pass


def _alarm(*a):
    raise _TO()


def cycles(edges):
    """quals that can reach themselves -> the group (set of quals on common cycles)"""
    reach = {}
    for q in edges:
        seen, todo = set(), list(edges[q])
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo += edges.get(x, ())
        reach[q] = seen
    return {q: {x for x in r if q in reach.get(x, ())} for q, r in reach.items() if q in r}


def endless(res, tier, seed, until):
    """contracts assume that their functions return: in a group of functions that call each other every call must decrease the
    measure of the group; the units where one does not are not discharged"""
    edges, flat = {}, {}
    for r in res:
        f = set(r.get('flat', r.get('used', [])))
        edges.setdefault(r['qual'], set()).update(set(r.get('used', [])) | f)
        flat.setdefault(r['qual'], {})[r['unit']] = f
    redo = []
    for q, group in cycles(edges).items():
        for name, f in flat[q].items():
            if f & group:
                redo.append((name, sorted(f & group)))
    for name, qs in redo:
        r = next(x for x in res if x['unit'] == name)
        if r['status'] == 'discharged':
            r['status'], r['reason'] = 'undecided', 'termination of the recursion through ' + ', '.join(qs)
            with mp.get_context('fork').Pool(1) as pool:
                r['concrete'] = spread(pool, _stand_in, [(name, tier, seed)], until + 40, lambda x: {'ran': 0, 'ok': 0, 'skip': 'time'})[0]
            r['_hasmodel'] = False


def _stand_in(args):
    name, tier, seed = args
    from . import unit as U
    u = U.UNITS[name]
    try:
        return U.concrete_search(u, None, seconds=30 if tier == 'quick' else 90, seed=seed, tries=u.tries if tier == 'quick' else 4 * u.tries)
    except (Exception, U._TO) as e:
        return {'ran': 0, 'ok': 0, 'skip': f'{type(e).__name__}: {e}'}


def run(pid, tier='quick', seed=1, procs=8):
    p = plan(pid)
    if not p:
        return None
    from . import unit as U
    for m in p['modules']:
        importlib.import_module('contracts.' + m)
    t0 = time.time()
    todo = []
    for pat in p['units']:
        hit = [n for n, u in U.UNITS.items() if n == pat or u.qual == pat or (pat.endswith('*') and u.qual.startswith(pat[:-1]))]
        if not hit:
            raise RuntimeError(f'no unit {pat}')
        todo += [n for n in hit if n not in todo]
    seen, res, unit_of = set(), [], {}
    for n, u in U.UNITS.items():
        unit_of.setdefault(u.qual, []).append(n)
    trusted = {}
    per = 170 if tier == 'quick' else 600
    until = t0 + (560 if tier == 'quick' else 7200)
    while todo:
        batch = [n for n in todo if n not in seen]
        seen.update(batch)
        todo = []
        batch.sort(key=lambda n: -U.UNITS[n].cost)
        if batch:
            with mp.get_context('fork').Pool(min(procs, len(batch)), maxtasksperchild=1) as pool:
                out = spread(pool, _job, [(n, tier, per, seed) for n in batch], until, lambda x: {**_none(x[0], 'time limit of the check'), 'concrete': {'ran': 0, 'ok': 0, 'skip': 'time'}, '_hasmodel': False})
        else:
            out = []
        for r in out:
            res.append(r)
            for q in r.get('used', []):
                if q in unit_of:
                    todo += [n for n in unit_of[q] if n not in seen and n not in todo]
                else:
                    trusted[q] = U.TRUSTED.get(q, 'contract used, no unit')
    endless(res, tier, seed, until)
    obl = []
    for r in res:
        u = U.UNITS[r['unit']]
        c = r.get('concrete') or {}
        st, wit = r['status'], None
        if st != 'discharged':
            if c.get('witness'):
                st, wit = 'refuted', c['witness']
            elif st == 'failed' and r['_hasmodel'] and not c.get('replayed') and not c.get('ran'):
                st = 'refuted'
            elif (c.get('modular') or {}).get('modular'):
                st = 'refuted'          # contradicted with the callees' contracts in place of the callees, beyond the orders that can be run
            elif c.get('ran'):
                st = 'bounded'
            else:
                st = 'undecided'
        if st == 'discharged' and u.bounded:
            st = 'bounded-proof'
        obl.append({'name': r['unit'], 'status': st, 'witness': wit, 'obligations': r['obligations'], 'reason': r.get('reason'),
                    'model': r.get('model'), 'concrete': c, 'bounded_in': u.bounded, 'time': r['time'], 'solver_s': r['solver_s'],
                    'inlined': r.get('inlined', [])})
    if not obl or not sum(r['obligations'] for r in res) and not any(o['status'] in ('refuted', 'bounded') for o in obl):
        raise RuntimeError('no obligation generated')
    done = [o for o in obl if o['status'] == 'discharged']
    level = 'proof' if len(done) == len(obl) and p.get('complete') else 'other'
    assumed = sorted({a for r in res for a in r.get('assumed', [])})
    cov = {'obligations': sum(o['obligations'] for o in obl if o['status'] not in ('bounded',)) + sum(1 for o in obl if o['status'] == 'bounded'),
           'discharged': sum(o['obligations'] for o in done) + sum(o['obligations'] for o in obl if o['status'] == 'bounded-proof'),
           'checker_cmd': f'python3-vt -B check.py {pid}' + (' --tier thorough' if tier == 'thorough' else ''),
           'functions_under_contract': sorted({r['qual'] for r in res}),
           'units_discharged_for_all_inputs': len(done),
           'units_discharged_with_a_bounded_dimension': [f"{o['name']}: {o['bounded_in']}" for o in obl if o['status'] == 'bounded-proof'],
           'units_checked_by_bounded_stand_in': [f"{o['name']}: {o['concrete'].get('ran')} inputs; {(o['reason'] or '')[-120:]}" for o in obl if o['status'] == 'bounded'],
           'units_undecided': [f"{o['name']}: {(o['reason'] or '')[-160:]}" for o in obl if o['status'] == 'undecided'],
           'back_end': 'z3 ' + _zv() + ' + canonical-form engine', 'solver_queries': sum(r['queries'] for r in res),
           'solver_s': round(sum(r['solver_s'] for r in res), 2), 'verification_s': round(time.time() - t0, 2),
           'executed_inline_instead_of_by_contract': sorted({q for r in res for q in r.get('inlined', [])}),
           'trusted_base': LOGICAL + p.get('lemmas', []) + [f'{q}: {w}' for q, w in sorted(trusted.items())]}
    if level == 'other':
        cov['explanation'] = (p.get('explanation', '') + ' Function contracts discharged by the deductive engine for all inputs where listed; '
                              'the remaining functions are checked by labelled bounded stand-ins.').strip()
    return {'obligations': obl, 'level': level, 'assumptions': ASSUME + assumed + p.get('assumptions', []), 'coverage': cov}


def _zv():
    import z3
    return z3.get_version_string()


def replay(r):
    """re-run the unit of a replay file on /repo's current tree"""
    from . import unit as U
    p = plan(r['property'])
    for m in p['modules']:
        importlib.import_module('contracts.' + m)
    x = _job((r['name'], 'thorough', 600, r.get('seed', 1)))
    print(json.dumps({k: v for k, v in x.items()}, indent=1, default=str)[:4000])
    return 1 if x['status'] != 'discharged' and (x.get('concrete') or {}).get('witness') else 0
