#!/usr/bin/env python3
"""Writes MANIFEST.json from nrbfcheck/props.py and properties.jsonl."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from nrbfcheck import props  # noqa: E402

NA = {
    'C40': 'Quantifies over the streams an external program writes; what the formatter emits is not in this source. The '
           'static family can only compare this code with the published grammar, which C02-C22 do.',
    'C41': 'The running time depends on hash and tree operations and on how often alternatives are tried again, which is '
           'a product of runtime quantities; no sound static bound on it is in reach. Termination is C30.',
    'C42': 'The numeric semantics of decimal text are those of the rust_decimal dependency, whose source is not part of '
           'this repository; C06 decides that exactly the text of the message is handed to it.',
}
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks = []
for p in ids:
    if p not in props.PROPS:
        continue
    i = props.PROPS[p]
    checks.append({'property': p, 'quick_cmd': './check.py ' + p, 'thorough_cmd': './check.py %s --thorough' % p,
                   'evidence_file': 'evidence/%s.json' % p, 'technique': i['technique'], 'level': i['level'],
                   'level_note': i['note']})
na = [{'property': p, 'reason': NA.get(p, 'Not claimed yet: its analysis is being built.')} for p in ids
      if p not in props.PROPS]
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'All checks read the MIR of /repo\'s current tree, dumped by driver/ (rustc_private) on every run.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print('%d checks, %d not applicable' % (len(checks), len(na)))
