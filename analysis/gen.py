"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(V, 'properties.jsonl'), 'w') as fh:
    for p in props.PROPS:
        d = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
        assert len(d['title']) <= 80, d['id']
        fh.write(json.dumps(d) + '\n')
checks = []
for p in props.PROPS:
    if 'na' in p:
        continue
    checks.append({
        'property': p['id'],
        'quick_cmd': './check.sh ' + p['id'],
        'thorough_cmd': './check.sh ' + p['id'],
        'technique': p['technique'],
        'level': 'other',
        'level_note': p['level_note'],
    })
m = {
    'version': 1,
    'setup_cmd': './setup.sh',
    'checks': checks,
    'not_applicable': [{'property': p['id'], 'reason': p['na']} for p in props.PROPS if 'na' in p],
}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(m['not_applicable']), 'not applicable')

# DESIGN.md = head + one section per property (module docstring, rule) + seeds
import ast
out = [open(os.path.join(V, 'DESIGN_head.md')).read()]
for p in props.PROPS:
    out.append('### %s %s\n' % (p['id'], p['title']))
    out.append(p['statement'] + '\n')
    if 'na' in p:
        out.append('*Not applicable to static analysis here:* ' + p['na'] + '\n')
        continue
    src = open(os.path.join(V, 'analysis', 'checks', p['id'].lower() + '.py')).read()
    doc = ast.get_docstring(ast.parse(src)) or ''
    rule = [l for l in src.split('\n') if l.startswith('RULE')]
    out.append('*How:* ' + doc + '\n')
    if rule:
        out.append('*Rule:* ' + rule[0].split('=', 1)[1].strip().strip("'") + '\n')
tail = os.path.join(V, 'DESIGN_tail.md')
out.append('## Planted changes\n')
seeds = os.path.join(V, 'seeds.json')
if os.path.exists(seeds):
    out.append('| change | property | what it needs | caught by |\n|---|---|---|---|')
    S = json.load(open(seeds))
    for k in sorted(os.listdir(os.path.join(V, 'seeded'))):
        m = json.load(open(os.path.join(V, 'seeded', k, 'meta.json')))
        c = S.get(k, {})
        out.append('| %s | %s | %s | %s |' % (k, m['property'], m['needs'], ', '.join(x for x in sorted(c) if c[x] == 1) or 'none'))
    out.append('')
if os.path.exists(tail):
    out.append(open(tail).read())
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out))
