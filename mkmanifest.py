#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and contracts/index.py."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
from contracts.index import PLAN
ASSUME = 'Trusted: the VC generator and normal form of engine/, z3, floats read as reals, UserDict/fractions/math primitives, documented argument types'
checks = []
for l in open(os.path.join(H, 'properties.jsonl')):
    p = json.loads(l)['id']
    pl = PLAN.get(p)
    if pl and pl.get('complete'):
        level, note = 'proof', f"Every function the property rests on is under contract and every obligation generated from the current source is discharged for all inputs. {ASSUME}" + \
            (', and the lemmas: ' + '; '.join(pl['lemmas']) if pl.get('lemmas') else '') + '. A function whose shape the engine cannot read after a change falls back to a labelled bounded check of its contract; an independent oracle cross-checks the contracts on a bounded set.'
    elif pl:
        level, note = 'other', f"Contracts discharged for all inputs on {len(pl['units'])} functions (evidence lists them){'; ' + pl['rest'] + ' (that dimension is bounded and labelled so)' if pl.get('rest') else '; the other functions by a bounded stand-in against an independent oracle, labelled bounded'}. {ASSUME}" + \
            (', and the lemmas: ' + '; '.join(pl['lemmas']) if pl.get('lemmas') else '') + '.'
    else:
        level, note = 'other', 'bounded stand-in: the real functions compared with an independent oracle on a stated finite set; not proved'
    checks.append(dict(property=p, quick_cmd=f'python3-vt -B check.py {p}', thorough_cmd=f'python3-vt -B check.py {p} --tier thorough',
                       technique='contract-based deductive verification of the real Python source (VC generator + z3 + normal form)' +
                       ('' if level == 'proof' else ', bounded stand-ins where labelled'), level=level, level_note=note))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=[]), open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
