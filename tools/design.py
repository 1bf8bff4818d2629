"""Fills the tables of DESIGN.md from the harnesses, properties.jsonl and seeded/ (template: tools/DESIGN.in.md).  Run by hand."""
import ast, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
rows = []
for p in props:
    path = os.path.join(HERE, 'harness', p['id'] + '.py')
    rows.append('### %s %s\n' % (p['id'], p['title']))
    if not os.path.exists(path):
        rows.append('Not built yet.\n')
        continue
    m = {}
    tree = ast.parse(open(path).read())
    for st in tree.body:
        if isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name):
            try:
                m[st.targets[0].id] = ast.literal_eval(st.value)
            except ValueError:
                pass
    docs = {f.name: (ast.get_docstring(f) or '') for f in tree.body if isinstance(f, ast.FunctionDef)}
    cases = m.get('THOROUGH_CASES', m['CASES'])
    rows.append('*Oracle:* %s\n' % m.get('ORACLE', ast.get_docstring(tree) or ''))
    rows.append('*Cases:* ' + '; '.join('`%s`%s' % (c, ' (%s)' % docs[c].splitlines()[0].rstrip('.') if docs.get(c) else '') for c in cases) + '.')
    rows.append('*Bounds:* %s. *Outside:* %s.' % (m.get('BOUNDS', ''), m.get('OUTSIDE', '')))
    if m.get('ASSUMPTIONS'):
        rows.append('*Assumes:* %s.' % '; '.join(m['ASSUMPTIONS']))
    ev = os.path.join(HERE, 'evidence', p['id'] + '.json')
    cost = ''
    if os.path.exists(os.path.join(HERE, 'tools', 'costs.json')):
        cost = json.load(open(os.path.join(HERE, 'tools', 'costs.json'))).get(p['id'], '')
    rows.append('*Cost:* %s\n' % cost)
seeds = ['| change | property | needs | caught |', '|---|---|---|---|']
caught = {}
cp = os.path.join(HERE, 'tools', 'caught.json')
if os.path.exists(cp):
    caught = json.load(open(cp))
for d in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
    m = json.load(open(os.path.join(HERE, 'seeded', d, 'meta.json')))
    seeds.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'], caught.get(d, '?')))
t = open(os.path.join(HERE, 'tools', 'DESIGN.in.md')).read()
open(os.path.join(HERE, 'DESIGN.md'), 'w').write(t.replace('BOUNDS_TABLE', '\n'.join(rows)).replace('SEED_TABLE', '\n'.join(seeds)))
