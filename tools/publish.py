#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from vlib/texts.py and vlib/meta.py."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from vlib import meta, texts  # noqa: E402

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fh:
    for pid in sorted(texts.TEXTS):
        t = texts.TEXTS[pid]
        assert len(t['title']) <= 80, pid
        fh.write(json.dumps({
            'id': pid, 'title': t['title'], 'statement': ' '.join(t['statement'].split()),
            'quantifier': {'over': t['over'], 'text': ' '.join(t['forall'].split())},
            'why_tests_cant': ' '.join(t['why'].split()),
            'anchors': {'files': t['files'], 'mechanism': [{'name': n, 'where': w} for n, w in t['mechanism']],
                        'observe_at': t.get('observe', []), 'hook_needed': None},
        }) + '\n')
checks, na = [], []
for pid in sorted(texts.TEXTS):
    if pid not in meta.PROPS:
        na.append({'property': pid, 'reason': texts.TEXTS[pid].get('na', 'check not built yet')})
        continue
    t = texts.TEXTS[pid]
    checks.append({
        'property': pid, 'quick_cmd': 'python3 check.py %s --tier quick' % pid, 'thorough_cmd': 'python3 check.py %s --tier thorough' % pid,
        'evidence_file': 'evidence/%s.json' % pid, 'technique': t['technique'], 'level': meta.PROPS[pid].get('level', 'exploration'),
        'level_note': ' '.join(t['note'].split()),
    })
json.dump({
    'version': 1, 'setup_cmd': 'python3 -m vlib.accel plain asan',
    'hooks': {'guard': 'none: the monitors attach from outside (public signals, wrapped callables, sanitizer builds), so /repo carries no hooks',
              'enable': 'nothing to enable', 'source_commits': []},
    'checks': checks, 'not_applicable': na,
}, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
