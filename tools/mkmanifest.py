#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: claims every property which has a module in pysa/checks."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
INTERP = 'abstract interpretation (value numbering, intervals, type sets, effect-trace partitioning) of the executor source'
TECH = {
    'C13': 'constant extraction and cross-language comparison over the syntax trees',
}
NOTE = {}
NA = {}
exec(open(V + '/tools/manifest_text.py').read())
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(V + '/pysa/checks/%s.py' % i.lower()):
        checks.append({
            'property': i,
            'quick_cmd': 'python3 check.py ' + i,
            'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': 'static analysis: ' + TECH.get(i, INTERP),
            'level': 'other',
            'level_note': NOTE.get(i, DEFAULT_NOTE),
        })
    else:
        na.append({'property': i, 'reason': NA.get(i, 'check not built yet')})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: the analysis reads the source as it is. See DESIGN.md.'},
          open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not claimed')
