#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
NA = [dict(property='floating-point accuracy of the recursions (no listed property depends on it)',
           reason='samples are encoded as real numbers: error growth of thousands of rounded operations is out of reach of the solver '
                  'and no tolerance is documented; a narrowing of the arithmetic (float32, integers) is detected under C14')]
note = {
 'C06': 'Inductive step and base case with symbolic cluster sizes: covers streams of any length for the stated numbers of clusters and features; '
        'the state invariant is learnt from the code, so a state it cannot describe is reported as inconclusive.',
}
gen = ('Holds for every real value of the symbolic samples on every path, within the sizes listed in the evidence (samples, clusters, features, label '
       'patterns). Trusts: the model of numpy in engine/snp.py (cross-checked against real numpy on each path with a witness), z3, and real '
       'instead of floating-point arithmetic. A violation is only reported after it has been reproduced on the untouched code.')
checks = [dict(property=i, quick_cmd=f'python3 check.py {i} quick', thorough_cmd=f'python3 check.py {i} thorough',
               evidence_file=f'evidence/{i}.json',
               technique='symbolic execution of the real Python source on solver terms, obligations decided by z3 (nonlinear real arithmetic), counterexamples replayed on the real code',
               level='model_checking', level_note=(note[i] + ' ' if i in note else '') + gen)
          for i in ids if i not in [x['property'] for x in NA]]
json.dump(dict(version=1, setup_cmd='python3 check.py --setup', checks=checks, not_applicable=[x for x in NA if x['property'] in ids],
               notes='No hooks are needed. Not encoded: ' + NA[0]['property'] + ': ' + NA[0]['reason'] + '. See DESIGN.md; replay a counterexample with: python3 replay.py <path>'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
