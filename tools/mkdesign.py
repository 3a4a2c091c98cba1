#!/usr/bin/env python3
"""Composes DESIGN.md: tools/design_head.md, then per property the notes below, the bounds of the
harness, the defects fixed (known_findings.json) and the planted bugs (seeded/*/meta.json)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {}
exec(open(os.path.join(V, 'tools', 'design_notes.py')).read())


def bounds(pid):
    t = open(os.path.join(V, 'harness', pid.lower() + '.py')).read()
    import ast
    for n in ast.parse(t).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == 'BOUNDS':
            return eval(compile(ast.Expression(n.value), 'b', 'eval'))
    return ''


out = [open(os.path.join(V, 'tools', 'design_head.md')).read().rstrip(), '', '## Properties', '']
fixed = json.load(open(os.path.join(V, 'known_findings.json')))['fixed']
seeds = {}
for m in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    d = json.load(open(m))
    st = os.path.join(os.path.dirname(m), 'status')
    seeds.setdefault(d['property'], []).append((os.path.basename(os.path.dirname(m)), d['what_it_breaks'], d['needs'], 'caught=True' in open(st).read()))
props = sorted((json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))), key=lambda p: p['id'])
for p in props:
    i = p['id']
    out += ['### %s %s' % (i, p['title']), '']
    enc, oracle, outside = NOTES[i]
    out += ['* Encoded: ' + enc, '* Oracle: ' + oracle, '* Bounds: ' + bounds(i) + '.', '* Outside: ' + outside,
            '* Beyond the tests: ' + p['why_tests_cant']]
    f = [re.sub(r'fixed: property=\w+ ', '', x) for x in fixed if 'property=%s ' % i in x]
    if f:
        out.append('* Defects found and fixed: ' + '; '.join(f) + '.')
    for s in seeds.get(i, []):
        out.append('* Planted %s (%s): %s - %s.' % (s[0], 'caught' if s[3] else 'missed', s[2], s[1]))
    out.append('')
out += [TAIL.strip(), '']
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out))
