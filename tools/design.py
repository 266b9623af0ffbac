#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, vlib/texts.py, vlib/design.py, the seeded bugs and tools/design_tail.md."""
import glob
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from vlib import design, meta, texts  # noqa: E402


def one(s):
    return ' '.join(s.split())


out = [open(os.path.join(HERE, 'tools', 'design_head.md')).read(), '## The properties\n']
for pid in sorted(texts.TEXTS):
    t = texts.TEXTS[pid]
    out.append('### %s %s\n' % (pid, t['title']))
    out.append(one(t['statement']) + '\n')
    oracle, bounds, how = design.D[pid]
    out.append('- *Workload*: ' + one(bounds) + ' One evaluation: ' + one(meta.PROPS[pid]['rule']) + '.')
    out.append('- *Oracle*: ' + one(oracle))
    out.append('- *Monitor*: ' + one(how))
    out.append('- *Why tests cannot settle it*: ' + one(t['why']))
    out.append('- *Limits*: ' + one(t['note']))
    out.append('- *Builds*: %s.' % ', '.join(meta.PROPS[pid]['modes']))
    out.append('')
out.append(open(os.path.join(HERE, 'tools', 'design_tail.md')).read())
out.append('## Seeded bugs and which checks catch them\n\nRecorded by tools/plant.py (quick tier, seed 1).\n\n| bug | needs | caught by |\n| --- | --- | --- |')
caught = json.load(open(os.path.join(HERE, 'tools', 'caught.json')))
for f in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    i = os.path.basename(os.path.dirname(f))
    m = json.load(open(f))
    c = caught.get(i, {})
    out.append('| %s | %s | %s |' % (i, m['needs'].replace('|', '/'), ', '.join('%s %s' % (k, v) for k, v in sorted(c.items())) or 'not recorded'))
open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
