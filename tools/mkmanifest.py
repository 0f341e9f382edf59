"""writes /verif/MANIFEST.json from properties.jsonl and the registered contracts"""
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from vc import reg      # noqa
reg.load()
props = [json.loads(x) for x in open(ROOT + '/properties.jsonl')]
NA = {}
checks, na = [], []
for p in props:
    i = p['id']
    hs = reg.PROPS.get(i, [])
    if not hs:
        na.append(dict(property=i, reason=NA.get(i, 'no contract written yet')))
        continue
    bounded = sorted({h.name.split('[')[0] for h in hs if h.bounded})
    note = ('Every obligation of %d contracts is generated from the current /repo source by executing the real '
            'functions on symbolic values and discharged by z3 (thorough: also cvc5). Trusts CPython, the engine in vc/, '
            'the cocotb stand-in and the contracts\' statement of the specification; counterexamples are replayed on the '
            'unmodified code.' % len(hs))
    if bounded:
        note += ' Bounded, not counted as proved: ' + ', '.join(bounded) + '.'
    allb = all(h.bounded for h in hs)
    checks.append(dict(
        property=i, quick_cmd='python3-vt vc/run.py check %s --tier quick' % i,
        thorough_cmd='python3-vt vc/run.py check %s --tier thorough' % i,
        evidence_file='evidence/%s.json' % i,
        technique='contract-based deductive verification: symbolic execution of the real functions against '
                  'pre/postconditions and invariants, verification conditions discharged by z3',
        level='other' if bounded else 'proof', level_note=note))
m = dict(version=1, setup_cmd='true',
         hooks=dict(guard='none', enable='no hooks: contracts are attached from outside, /repo is loaded unchanged',
                    source_commits=[]),
         checks=checks, not_applicable=na,
         notes='One check per property; vc/ is the verifier, vc/contracts/ the contracts.')
with open(ROOT + '/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks', len(na), 'not claimed')
