"""Writes DESIGN.md from tools/design_head.md, tools/properties.py, the property modules, tools/design_notes.py, known_findings.txt and tools/design_tail.md."""
import ast
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda *p: open(os.path.join(HERE, *p)).read()
exec(rd('tools', 'design_notes.py'))
props = [json.loads(l) for l in rd('properties.jsonl').splitlines()]
man = {c['property']: c for c in json.loads(rd('MANIFEST.json'))['checks']}
cost = json.loads(rd('tools', 'cost.json'))
out = [rd('tools', 'design_head.md').rstrip(), '', '## Properties', '']
for p in props:
    i = p['id']
    src = rd('mc', 'props', i.lower() + '.py')
    c = {}
    for n in ast.parse(src).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') in ('RULE', 'ASSUMPTIONS', 'LEVEL'):
            c[n.targets[0].id] = ast.literal_eval(n.value)
    sc = sorted(set(re.findall(r"\b(Enum|Bfs)\('(\w+)'", src)), key=lambda t: src.index("%s('%s'" % t))
    o, b, f = N[i]
    out += ['### %s %s' % (i, p['title']), '', p['statement'], '',
            '- *Explored* (%s): %s.' % (', '.join('%s: %s' % (n, {'Enum': 'enumeration', 'Bfs': 'state search'}[k]) for k, n in sc), c['RULE'].rstrip('.')),
            '- *Oracle*: %s.' % o]
    if b:
        out += ['- *Bound*: %s.' % b]
    out += ['- *Assumed*: %s.' % '; '.join(c['ASSUMPTIONS']),
            '- *Reaches what tests cannot*: %s; quantified over %s.' % (p['why_tests_cant'], p['quantifier']['text'])]
    k = cost.get(i)
    if k:
        out += ['- *Cost*: quick %s executions in %s s%s.' % (k['quick'][0], k['quick'][1], '; thorough %s executions in %s s' % tuple(k['thorough']) if 'thorough' in k else '')]
    if f:
        out += ['- *Corrected in the check*: %s.' % f]
    out += ['']
out += ['## Genuine defects found and repaired', '', 'One line per `fix:` commit (from known_findings.txt; nothing is left unrepaired in the claimed domain).', '']
for l in rd('known_findings.txt').splitlines():
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
    if m:
        out += ['- %s `%s` %s' % m.groups()]
out += ['', rd('tools', 'design_tail.md').rstrip(), '']
with open(os.path.join(HERE, 'DESIGN.md'), 'w') as f:
    f.write('\n'.join(out))
