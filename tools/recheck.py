"""Runs the checks against the seeded bugs again: recheck.py [-c C01,C02] [id...]; without -c the bug's own property.  Records in tools/caught.json."""
import json
import os
import re
import subprocess
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plant import REPO, VERIF, record, run, undo  # noqa: E402

args = sys.argv[1:]
checks = None
if args[:1] == ['-c']:
    checks = args[1].split(',')
    args = args[2:]
for i in args or sorted(os.listdir(os.path.join(VERIF, 'seeded'))):
    folder = os.path.join(VERIF, 'seeded', i)
    meta = json.load(open(os.path.join(folder, 'meta.json')))
    if run(['git', '-C', REPO, 'status', '--porcelain']).stdout.strip():
        sys.exit('/repo is not clean')
    try:
        r = run(['git', '-C', REPO, 'apply', os.path.join(folder, 'patch.diff')])
        if r.returncode:
            print(i, 'does not apply', r.stderr)
            continue
        for c in checks or [meta['property']]:
            r = run([sys.executable, 'check.py', c], cwd=VERIF, env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
            v = 'VIOLATION' in r.stdout
            m = re.findall(r'mechanism: (\S+)', r.stdout)
            record(i, c, '(%s)' % m[0] if v and m else 'caught' if v else 'MISSED')
            print(i, c, r.returncode, m[:1] if v else 'MISSED', flush=True)
    finally:
        undo()
