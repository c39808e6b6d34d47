# usage: python3 tools/seeded.py  -> tools/design_seeded.md  (results: tools/seeded_results.json)
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
p = V + '/tools/seeded_results.json'
if os.path.exists(p):
    with open(p) as f:
        res = json.load(f)
out = ['## Planted bugs', '',
       'Each passes the 97 stable tests; its demonstration fails with it and passes without.', '',
       '| bug | property | what it breaks | needs | caught by (quick) |', '|---|---|---|---|---|']
for b in sorted(os.listdir(V + '/seeded')):
    with open('%s/seeded/%s/meta.json' % (V, b)) as f:
        m = json.load(f)
    out.append('| %s | %s | %s | %s | %s |' % (b, m['property'], m['what_it_breaks'], m['needs'],
                                             res.get(b, '?')))
with open(V + '/tools/design_seeded.md', 'w') as f:
    f.write('\n'.join(out) + '\n')
