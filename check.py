#!/usr/bin/env python3
"""check.py <property> -- decide one property on /repo's current tree (tier from VERIF_TIER).

1. deductive part: verification conditions generated from /repo's current source against the sidecar contracts
   (engine/, contracts/), discharged function by function;
2. bounded part (labelled bounded, never counted as proved): the real code run against an independent oracle.  It
   stands in for functions out of the verifier's reach, and searches a failing input when an obligation fails.
"""
import sys, os, json, time, hashlib, argparse, tempfile, shutil
sys.dont_write_bytecode = True
if os.environ.get('PYTHONHASHSEED') != '0':         # reproducible runs
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable, '-B', os.path.abspath(__file__)] + sys.argv[1:])
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    pid = a.pid
    t0 = time.time()
    from bounded import core
    from bounded.cases import ALL
    ded = None
    try:
        from engine import driver
        ded = driver.run(pid, tier, seed)
    except ImportError as e:
        if 'engine' not in str(e): raise
    cases = ALL[pid](tier)
    res = core.run_all(cases, seconds=t0 + 840 - time.time() if tier == 'quick' else 7200)
    bad = [r for r in res if r[1] == 'fail']
    und = [r for r in res if r[1] in ('timeout', 'missing')]
    viol = []
    os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
    def replay(kind, name, data, tail=''):
        fn = os.path.join(HERE, 'evidence', 'replay', f"{pid}-{hashlib.sha1((kind + name).encode()).hexdigest()[:10]}.json")
        json.dump({'property': pid, 'kind': kind, 'name': name, 'tier': tier, 'seed': seed, 'rerun': f'python3-vt -B {HERE}/replay.py {fn}', **data}, open(fn, 'w'), indent=1, default=str)
        viol.append(f'VIOLATION property={pid} replay={fn}{tail}')
    obl = ded['obligations'] if ded else []
    refuted = [o for o in obl if o['status'] == 'refuted']
    # a failing input found by running the real code is reported first, with the failed obligations beside it
    for lab, st, r, tm in bad:
        replay('case', lab, {'failing': r, 'failed_obligations': [o['name'] for o in refuted]})
    for o in refuted:
        if o.get('witness'): replay('obligation', o['name'], {'failing': o['witness'], 'obligation': o})
    if refuted and not viol:
        for o in refuted: replay('obligation', o['name'], {'obligation': o}, ' no-failing-input-found')
    samples = [r[0] for r in res[:3]]
    cov = {'explanation': 'see DESIGN.md', 'bounded_cases_run': sum(r[1] in ('ok', 'fail') for r in res),
           'bounded_cases_not_decided': [f'{r[0]}: {r[1]}' for r in und], 'bounded_samples': samples}
    level = 'other'; assumptions = []
    if ded:
        level = ded['level']; assumptions = ded['assumptions']
        cov.update(ded['coverage'])
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': assumptions,
          'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1, default=str)
    print(f"{pid} {tier}: {len(obl)} obligations, {sum(o['status'] == 'discharged' for o in obl)} discharged, {len(refuted)} refuted; "
          f"{len(res)} bounded cases, {len(bad)} failing, {len(und)} undecided; {time.time() - t0:.1f}s")
    for v in viol[:20]: print(v)
    sys.stdout.flush()
    return 1 if viol else 0

if __name__ == '__main__':
    cwd = tempfile.mkdtemp(prefix='verif-cwd-')         # the code under test may write files: keep stray ones in a scratch directory
    os.chdir(cwd)
    try: rc = main()
    finally:
        os.chdir('/')
        shutil.rmtree(cwd, ignore_errors=True)
    sys.exit(rc)
