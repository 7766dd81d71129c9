#!/usr/bin/env python3
"""Fills the generated tables of DESIGN.md (between the BEGIN/END markers) from properties.jsonl, levels.py, props/, known_findings.json,
seeded/ and tools/catches.json."""
import os, re, json, ast
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(H + '/tools/levels.py').read())
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
out = []
for p in props:
    i = p['id']
    src = open(H + '/props/p_%s.py' % i).read()
    hs = []
    for n in ast.parse(src).body:
        if isinstance(n, ast.FunctionDef) and n.decorator_list:
            b = [k.value.value for k in n.decorator_list[0].keywords if k.arg == 'bounded']
            hs.append('`%s`%s' % (n.name, ' (bounded: %s)' % b[0] if b else ''))
    mech = ', '.join('`%s`' % m['name'] for m in p['anchors']['mechanism'])
    out.append('**%s %s** (%s). Code: %s. %s Harnesses: %s.\n' % (i, p['title'], LEVELS[i][0], mech, LEVELS[i][1], ', '.join(hs)))
T1 = '\n'.join(out)
T2 = '\n'.join('* %s' % e['entry'] if e['status'] == 'fixed' else '* open: %s' % e['what'] for e in json.load(open(H + '/known_findings.json')))
c = {}
try:
    c = json.load(open(H + '/tools/catches.json'))
except Exception:
    pass
r = ['| bug | property | needs | caught |', '|---|---|---|---|']
for b in sorted(os.listdir(H + '/seeded')):
    m = json.load(open(H + '/seeded/%s/meta.json' % b))
    r.append('| %s | %s | %s | %s |' % (b, m['property'], m['needs'], c.get(b, '?')))
T3 = '\n'.join(r)
s = open(H + '/DESIGN.md').read()
for k, t in (('PROPERTIES', T1), ('FIXES', T2), ('BUGS', T3)):
    s = re.sub(r'(<!-- BEGIN %s -->\n).*?(<!-- END %s -->)' % (k, k), lambda m: m.group(1) + t + '\n' + m.group(2), s, flags=re.S)
open(H + '/DESIGN.md', 'w').write(s)
