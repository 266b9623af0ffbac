"""Plants a bug: plant.py SPEC.py [id...] [--checks C01,C02]

SPEC.py has BUGS = [dict(id=, property=, needs=, breaks=, edits=[(file, old, new)...], demo=python source, accel=bool)...].
Each is applied to a clean /repo, built, tested (the stable tests must pass), demonstrated (the demo must fail with it and pass
without), checked and undone.  What is good is kept in /verif/seeded/<id>/.
"""
import json
import os
import re
import subprocess
import sys

REPO, VERIF, BASE = '/repo', '/verif', 'f15d50a'


def run(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **kw)


def undo():
    run(['git', '-C', REPO, 'checkout', '--', '.'])


def original_lines(edits):
    """Are the lines which the patch takes away lines of the original repository"""
    diff = run(['git', '-C', REPO, 'diff', '-U0']).stdout
    bad = []
    path = None
    removed = 0
    for line in diff.splitlines():
        if line.startswith('--- a/'):
            path = line[6:]
        m = re.match(r'@@ -(\d+)(?:,(\d+))? ', line)
        if m:
            start, n = int(m.group(1)), int(m.group(2) or 1)
            if n:
                blame = run(['git', '-C', REPO, 'blame', '-s', '-L', '%d,+%d' % (start, n), 'HEAD', '--', path]).stdout
                for b in blame.splitlines():
                    removed += 1
                    if BASE not in b[:10]:
                        bad.append(b)
    return removed, bad


def stable_tests():
    out = '/tmp/plant-out.json'
    run(['bash', '/opt/vp/test.sh', out])
    base = json.load(open('/opt/vp/BASELINE.json'))
    stable = base.get('stable') or base.get('passed') or base
    got = json.load(open(out))
    return sorted(set(stable) - set(got['passed']))


def demo(folder):
    r = run(['bash', os.path.join(folder, 'demo.sh')], cwd=REPO, timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-400:]


def record(bug, check, what):
    path = os.path.join(VERIF, 'tools', 'caught.json')
    got = json.load(open(path)) if os.path.exists(path) else {}
    got.setdefault(bug, {})[check] = what
    with open(path, 'w') as fh:
        json.dump(got, fh, indent=1, sort_keys=True)
        fh.write('\n')


def plant(bug, checks=None):
    folder = os.path.join(VERIF, 'seeded', bug['id'])
    if run(['git', '-C', REPO, 'status', '--porcelain']).stdout.strip():
        sys.exit('/repo is not clean')
    os.makedirs(folder, exist_ok=True)
    with open(os.path.join(folder, 'demo.py'), 'w') as fh:
        fh.write(bug['demo'].strip('\n') + '\n')
    with open(os.path.join(folder, 'demo.sh'), 'w') as fh:
        fh.write('#!/bin/bash\n# Exits 0 when the property holds.  Run in the repository, after it is built.\n')
        fh.write('export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD%s"\n' % (':$PWD/accelerate' if bug.get('accel') else ''))
        fh.write('exec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    with open(os.path.join(folder, 'meta.json'), 'w') as fh:
        json.dump({'property': bug['property'], 'needs': ' '.join(bug['needs'].split()), 'what_it_breaks': ' '.join(bug['breaks'].split())}, fh, indent=1)
        fh.write('\n')
    problems, caught = [], []
    accel = any(f.startswith('accelerate') for f, _, _ in bug['edits'])
    if bug.get('accel'):
        run(['bash', '/opt/vp/build.sh'])
    rc, text = demo(folder)
    if rc != 0:
        problems.append('demo fails on the clean tree: %s' % text)
    try:
        for f, old, new in bug['edits']:
            p = os.path.join(REPO, f)
            s = open(p).read()
            if s.count(old) != 1:
                return ['%d times in %s: %r' % (s.count(old), f, old)], []
            open(p, 'w').write(s.replace(old, new))
        with open(os.path.join(folder, 'patch.diff'), 'w') as fh:
            fh.write(run(['git', '-C', REPO, 'diff']).stdout)
        removed, bad = original_lines(bug['edits'])
        if bad or not removed:
            problems.append('%d lines, not original: %s' % (removed, bad))
        if accel or bug.get('accel'):
            r = run(['bash', '/opt/vp/build.sh'])
            if r.returncode:
                problems.append('does not build ' + r.stdout[-300:])
        missing = stable_tests()
        if missing:
            problems.append('fails tests %s' % missing)
        rc, text = demo(folder)
        if rc == 0:
            problems.append('demo passes with the bug')
        else:
            print('   demo: %s' % text.strip().splitlines()[-1][:200])
        for c in checks or [bug['property']]:
            r = run([sys.executable, 'check.py', c], cwd=VERIF, env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            m = re.findall(r'mechanism: (\S+)', r.stdout)
            record(bug['id'], c, '(%s)' % m[0] if v and m else 'caught' if v else 'MISSED')
            caught.append('%s rc=%d %s' % (c, r.returncode, v[0][:150] if v else 'MISSED'))
    finally:
        undo()
        if accel:
            run(['bash', '/opt/vp/build.sh'])
    return problems, caught


if __name__ == '__main__':
    args = sys.argv[1:]
    checks = None
    if '--checks' in args:
        i = args.index('--checks')
        checks = args[i + 1].split(',')
        del args[i:i + 2]
    spec = {}
    exec(open(args[0]).read(), spec)
    for bug in spec['BUGS']:
        if args[1:] and bug['id'] not in args[1:]:
            continue
        print(bug['id'], bug['property'], flush=True)
        problems, caught = plant(bug, checks)
        for p in problems:
            print('   PROBLEM', p)
        for c in caught:
            print('   ', c, flush=True)
