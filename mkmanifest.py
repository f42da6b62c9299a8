"""Writes MANIFEST.json for the properties that have a module under vp/props."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
NOTES = {}
checks = []
for p in props:
    i = p['id']
    if not os.path.exists(os.path.join(H, 'vp', 'props', i.lower() + '.py')):
        continue
    checks.append({
        'property': i,
        'quick_cmd': './check %s' % i,
        'thorough_cmd': './check %s --tier thorough' % i,
        'technique': 'property-based testing: generated inputs and histories against a reference model, with shrinking',
        'level': 'exploration',
        'level_note': 'random and boundary-biased search over generated cases; absence of a violation is evidence, not proof',
    })
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': []},
          open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
