#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json for the properties that have a harness."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NA = {}
exec(open(os.path.join(V, 'tools', 'na_table.py')).read())
checks, na = [], []
for p in props:
    h = os.path.join(V, 'harness', p['id'].lower() + '.py')
    if p['id'] in NA or not os.path.exists(h):
        na.append(dict(property=p['id'], reason=NA.get(p['id'], 'no check built yet')))
        continue
    cmd = 'python3-vt /verif/check.py %s' % p['id']
    checks.append(dict(
        property=p['id'], quick_cmd=cmd + ' --tier quick', thorough_cmd=cmd + ' --tier thorough',
        technique='symbolic execution of the Python source with z3 deciding every path and assertion; counterexamples replayed on the real code',
        level='model_checking',
        level_note='bounded: holds for every value of the symbolic inputs within the bounds the evidence file states (sizes, command counts, formats); reals model floats'))
m = dict(version=1, setup_cmd='python3-vt -c "import z3; print(z3.get_version_string())"', checks=checks,
         not_applicable=na, notes='known_findings.json lists recorded defects and fixed ones')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
