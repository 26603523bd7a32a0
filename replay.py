#!/usr/bin/env python3
"""replay.py FILE -- run the failing input of a replay file again on /repo's current tree"""
import sys, os, json
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
r = json.load(open(sys.argv[1]))
print(json.dumps(r, indent=1)[:4000])
if r['kind'] == 'case':
    from bounded import core
    from bounded.cases import ALL
    for lab, th in ALL[r['property']](r['tier']):
        if lab == r['name']:
            x = core.run_case(lab, th)
            print('replayed on', core.REPO, '->', x[1], x[2])
            sys.exit(1 if x[1] == 'fail' else 0)
    print('no such case')
else:
    from engine import driver
    sys.exit(driver.replay(r))
