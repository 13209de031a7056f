"""Writes /verif/DESIGN.md from tools/design_*.md, the check modules and tools/seed_results.json."""
import importlib, json, os, re, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(H, 'mc'), os.environ.get('VERIF_REPO', '/repo')]
sys.dont_write_bytecode = True
T = os.path.join(H, 'tools')
read = lambda n: open(os.path.join(T, n)).read()
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
per = {}
for part in re.split(r'(?m)^## (?=C\d\d)', read('design_props.md'))[1:]:
    per[part[:3]] = part[3:].strip()
res = json.load(open(os.path.join(T, 'seed_results.json')))
ids = {}
for f in sorted(os.listdir(os.path.join(H, 'seeded'))):
    ids[f] = json.load(open(os.path.join(H, 'seeded', f, 'meta.json')))


def fmt(b):
    return '\n'.join('  - %s: %s' % (k, v) for k, v in b.items())


out = [read('design_head.md').rstrip(), '', '## Properties', '']
for p in props:
    i = p['id']
    m = importlib.import_module('checks.' + i.lower())
    q = m.BOUNDS('quick') if callable(m.BOUNDS) else m.BOUNDS
    t = m.BOUNDS('thorough') if callable(m.BOUNDS) else m.BOUNDS
    out += ['### %s %s' % (i, p['title']), '', per[i], '', '- Bounds (quick):', fmt(q)]
    d = {k: v for k, v in t.items() if q.get(k) != v}
    if d:
        out += ['- Deeper in the thorough tier:', fmt(d)]
    out += ['- Assumptions:'] + ['  - ' + a for a in m.ASSUMPTIONS]
    s = ['%s (%s)' % (k, ', '.join(sorted(c for c, ok in res.get(k, {}).items() if ok)) or 'NOT CAUGHT') for k, v in ids.items() if v['property'] == i]
    out += ['- Planted bugs (caught by): ' + ('; '.join(s) or 'none'), '']
out += [read('design_tail.md').rstrip(), '']
open(os.path.join(H, 'DESIGN.md'), 'w').write('\n'.join(out))
