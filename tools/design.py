# Writes DESIGN.md from design_head.md, properties.jsonl, the checks, design_seeded.md, design_tail.md
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
def rd(n):
    p = os.path.join(V, 'tools', n)
    if not os.path.exists(p):
        return ''
    with open(p) as f:
        return f.read()
out = [rd('design_head.md'), '\n## Properties\n']
with open(os.path.join(V, 'properties.jsonl')) as f:
    props = [json.loads(l) for l in f]
try:
    cost = json.loads(rd('cost.json'))
except ValueError:
    cost = {}
for p in props:
    m = importlib.import_module('vmc.checks.' + p['id'].lower())
    r = m.RULE if isinstance(m.RULE, dict) else {'quick': m.RULE, 'thorough': 'same'}
    out.append('\n### %s  %s\n' % (p['id'], p['title']))
    out.append('\n%s\n' % p['statement'])
    out.append('\n* Explored (quick): %s.\n* Explored (thorough): %s.\n' % (r['quick'], r['thorough']))
    out.append('* Oracle and assumptions: %s.\n' % '; '.join(m.ASSUMPTIONS))
    out.append('* Why the tests cannot: %s\n' % p['why_tests_cant'])
    c = cost.get(p['id'])
    if c:
        out.append('* Cost: %s.\n' % c)
out.append(rd('design_notes.md'))
out.append(rd('design_seeded.md'))
out.append(rd('design_tail.md'))
with open(os.path.join(V, 'DESIGN.md'), 'w') as f:
    f.write(''.join(out))
