"""Writes /verif/DESIGN.md: tools/design_head.md, then the harnesses of each property, the planted bugs and the findings."""
import glob
import json
import os
import sys
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, HERE)
from vlib.harness_api import H, load_all
load_all()
out = [open(os.path.join(HERE, 'tools', 'design_head.md')).read().rstrip(), '', '## Harnesses and bounds, per property', '',
       'In brackets: number of parameter combinations (instances) in the quick and in the thorough tier.', '']
for p in map(json.loads, open(os.path.join(HERE, 'properties.jsonl'))):
    hs = [h for h in H.values() if h.prop == p['id']]
    if not hs:
        continue
    out += ['### %s — %s' % (p['id'], p['title']), '']
    for h in hs:
        out.append('- `%s` [%d/%d]: %s' % (h.name, len(h.quick), len(h.thorough or h.quick), ' '.join((h.fn.__doc__ or '').split())))
    out.append('')
out += ['## Planted bugs', '', open(os.path.join(HERE, 'tools', 'design_seeds.md')).read().rstrip(), '', '| bug | check | what it breaks | needs |', '|---|---|---|---|']
for d in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    m = json.load(open(d))
    out.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), m['property'], m['what_it_breaks'], m['needs']))
out += ['', '## Defects found and repaired in /repo', '']
for k in json.load(open(os.path.join(HERE, 'known_findings.json'))):
    out.append('- %s' % k['what'])
out += ['', open(os.path.join(HERE, 'tools', 'design_tail.md')).read().rstrip()]
open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
