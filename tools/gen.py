"""Writes properties.jsonl and MANIFEST.json from the single table below (run: python3 tools/gen.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, level='model_checking', claim=True,
         reason=None):
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()),
                  quantifier=dict(over=over, text=' '.join(text.split())), why_tests_cant=' '.join(why.split()),
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]),
                  technique=technique, note=' '.join(note.split()), level=level, claim=claim, reason=reason))


exec(open(os.path.join(HERE, 'tools', 'properties.py')).read())

assert len({p['id'] for p in P}) == len(P)
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')})
                + '\n')
checks, na = [], []
for p in P:
    have = os.path.exists(os.path.join(HERE, 'mc', 'props', p['id'].lower() + '.py'))
    if p['claim'] and have:
        checks.append(dict(property=p['id'], quick_cmd='bash run.sh %s --tier quick' % p['id'],
                           thorough_cmd='bash run.sh %s --tier thorough' % p['id'],
                           technique=p['technique'], level=p['level'], level_note=p['note']))
    else:
        na.append(dict(property=p['id'], reason=p['reason'] or 'check not built yet'))
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
                   notes='Machinery: mc/core.py (explorer), mc/props/<id>.py (one module per property); '
                         'see DESIGN.md. No hooks are needed in /repo.'), f, indent=1)
    f.write('\n')
print('%d properties, %d claimed' % (len(P), len(checks)))
