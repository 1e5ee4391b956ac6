"""Fills the tables of DESIGN.md from plan.py and seeded/ (template: design.tmpl.md)."""
import os, sys, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plan
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
titles = {}
for l in open(V + '/properties.jsonl'):
    p = json.loads(l); titles[p['id']] = p['title']
t = ['| id | property | units | proved for all inputs | bounded only |', '|---|---|---|---|---|']
for k, p in plan.PLAN.items():
    t.append('| %s | %s | %s | %s | %s |' % (k, titles[k], ', '.join(p['units']) or '-', p['proved'] or '-', p['bounded']))
s = ['| planted bug | property | needs |', '|---|---|---|']
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(V + '/seeded/' + d + '/meta.json'))
    s.append('| %s | %s | %s |' % (d, m['property'], m['needs']))
open(V + '/DESIGN.md', 'w').write(open(V + '/py/design.tmpl.md').read().replace('@@TABLE@@', '\n'.join(t)).replace('@@SEEDED@@', '\n'.join(s)))
