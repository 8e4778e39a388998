"""Writes MANIFEST.json from properties.jsonl and the checks present in harness/checks."""
import glob
import importlib
import json
import os
import sys
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'harness'))
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
NA = {}
checks, na = [], []
for p in props:
    f = glob.glob(os.path.join(ROOT, 'harness', 'checks', p['id'].lower() + '_*.py'))
    if not f:
        na.append(dict(property=p['id'], reason=NA.get(p['id'], 'no check built yet')))
        continue
    mod = importlib.import_module('checks.' + os.path.basename(f[0])[:-3])
    checks.append(dict(
        property=p['id'],
        quick_cmd='VERIF_TIER=quick ./run ' + p['id'],
        thorough_cmd='VERIF_TIER=thorough ./run ' + p['id'],
        technique=getattr(mod, 'TECHNIQUE', 'runtime monitoring: online/offline oracle over randomised executions of the real code under MPI'),
        level='exploration',
        level_note=getattr(mod, 'NOTE', 'The property held on every execution of this run (counts in the evidence file); '
                           'it says nothing about inputs not generated. Trusts the reference model in the check, numpy and Open MPI.'),
    ))
m = dict(version=1, setup_cmd='./run setup', checks=checks, not_applicable=na,
         notes='Checks build pmesh from /repo into /verif/.build (content-hashed); see DESIGN.md.')
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', [x['property'] for x in na])
