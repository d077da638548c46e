"""Writes MANIFEST.json from checks.json."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
C = json.load(open(os.path.join(H, 'checks.json')))
props = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='bash setup.sh',
         hooks=dict(guard='', enable='', source_commits=[]),
         checks=[dict(property=c, quick_cmd=f'VERIF_TIER=quick python3 check.py {c}',
                      thorough_cmd=f'VERIF_TIER=thorough python3 check.py {c}',
                      evidence_file=f'evidence/{c}.json',
                      technique=C[c].get('technique', 'TLA+ specification explored by TLC generates the scenarios; they are executed on the code and the recorded traces are validated against the specification by TLC with exact arithmetic'),
                      level='model_checking',
                      level_note=C[c].get('note', 'exhaustive over the stated bounds of the specification; inputs beyond the bounds are sampled by seed'))
                 for c in props if c in C],
         not_applicable=[dict(property=c, reason='check under construction') for c in props if c not in C],
         notes='No hooks are needed: everything is observed through the public API. See DESIGN.md.')
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
