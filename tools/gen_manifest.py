#!/usr/bin/env python3
"""Writes MANIFEST.json from props/table.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props.table import TABLE, NA
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'sh tools/build_astx.sh', 'checks': [], 'not_applicable': []}
for p in props:
    if p in TABLE:
        e = TABLE[p]
        m['checks'].append({'property': p, 'quick_cmd': './check %s quick' % p, 'thorough_cmd': './check %s thorough' % p,
                            'technique': e['technique'], 'level': e['level'], 'level_note': e['note'] + (' Assumes: ' + '; '.join(e['assumptions']) + '.' if e['assumptions'] else '')})
    else:
        m['not_applicable'].append({'property': p, 'reason': NA.get(p, 'No check is built for this property yet.')})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
