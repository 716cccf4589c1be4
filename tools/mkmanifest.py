#!/usr/bin/env python3
"""Regenerate properties.jsonl and MANIFEST.json from meta/*.py."""
import glob, json, os, importlib.util
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props, checks, na = [], [], []
for f in sorted(glob.glob(V + '/meta/*.py')):
    s = importlib.util.spec_from_file_location('m', f)
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    for P in (m.P if isinstance(m.P, list) else [m.P]):
        props.append({'id': P['id'], 'title': P['title'], 'statement': P['statement'],
            'quantifier': {'over': P['q'][0], 'text': P['q'][1]}, 'why_tests_cant': P['why'],
            'anchors': {'files': P['files'], 'mechanism': [{'name': a, 'where': b} for a, b in P['mech']]}})
        if P.get('na'):
            na.append({'property': P['id'], 'reason': P['na']})
        else:
            checks.append({'property': P['id'], 'quick_cmd': 'python3-vt check.py %s' % P['id'],
                'thorough_cmd': 'python3-vt check.py %s thorough' % P['id'],
                'evidence_file': 'evidence/%s.json' % P['id'],
                'technique': P['technique'], 'level': 'other', 'level_note': P['level_note']})
        assert len(P['title']) <= 80, P['id']
props.sort(key=lambda p: p['id'])
checks.sort(key=lambda p: p['property'])
with open(V + '/properties.jsonl', 'w') as o:
    for p in props:
        o.write(json.dumps(p) + '\n')
with open(V + '/MANIFEST.json', 'w') as o:
    json.dump({'version': 1, 'setup_cmd': 'python3 -c "import sys; sys.path.insert(0,\'lib\'); import ir; ir.ensure_tool()"',
               'checks': checks, 'not_applicable': na,
               'notes': 'All checks are static analyses of /repo/src and /repo/HealpixC compiled to LLVM IR on every run; see DESIGN.md.'}, o, indent=1)
    o.write('\n')
