#!/usr/bin/env python3
"""Writes MANIFEST.json from checkinfo.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import checkinfo as ci
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='python3 check.py --build', checks=[], not_applicable=[],
         notes='No hooks in /repo: the seams are put in by a source rewriter (cmd/vgen) at build time, through go build -overlay. Unguarded commits in /repo are repairs (fix:).')
for p in props:
    if p in ci.INFO:
        i = ci.INFO[p]
        m['checks'].append(dict(property=p, quick_cmd='VERIF_TIER=quick python3 check.py ' + p, thorough_cmd='VERIF_TIER=thorough python3 check.py ' + p,
                                evidence_file='evidence/%s.json' % p, technique=i['tech'], level=i.get('level', 'exploration'), level_note=i.get('note', ci.LEVEL_NOTE)))
    else:
        m['not_applicable'].append(dict(property=p, reason=getattr(ci, 'NA', {}).get(p, ci.NOT_YET)))
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
