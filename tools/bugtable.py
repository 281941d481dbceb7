"""rewrites the table of planted bugs in tools/design_tail.md from the folders of seeded bugs (documentation only; no check uses this)"""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for b in sorted(os.listdir(here + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (here, b)))
    rows.append((m['property'], b, m['needs'], m['what_it_breaks'], m.get('caught', True)))
fn = here + '/tools/design_tail.md'
s = open(fn).read()
a, z = '<!-- table -->\n', '<!-- /table -->\n'
t = '| property | bug | needs | breaks | caught by |\n|---|---|---|---|---|\n'
t += ''.join('| %s | %s | %s | %s | %s |\n' % (p, b, n, w, p + ' (quick)' if c else 'missed') for p, b, n, w, c in sorted(rows))
s = s[:s.index(a) + len(a)] + t + s[s.index(z):]
open(fn, 'w').write(s)
