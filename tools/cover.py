"""Which lines of functions in the repository no check runs: cover.py [C01...]"""
import dis
import json
import os
import subprocess
import sys
import tempfile

VERIF, REPO = os.path.dirname(os.path.dirname(os.path.abspath(__file__))), '/repo'
checks = sys.argv[1:] or ['C%02d' % i for i in range(1, 60) if os.path.exists('%s/vlib/props/c%02d.py' % (VERIF, i))]
folder = tempfile.mkdtemp()
for c in checks:
    subprocess.run([sys.executable, 'check.py', c], cwd=VERIF, env=dict(os.environ, VERIF_COV=folder), capture_output=True)
ran = {}
for f in os.listdir(folder):
    for name, lines in json.load(open(os.path.join(folder, f))).items():
        ran.setdefault(name, set()).update(lines)


def functions(code):
    for c in code.co_consts:
        if hasattr(c, 'co_code'):
            yield c
            yield from functions(c)


for top, _, names in sorted(os.walk(os.path.join(REPO, 'vrml'))):
    for n in sorted(names):
        if not n.endswith('.py') or 'test' in n:
            continue
        path = os.path.join(top, n)
        text = open(path).read()
        name = path[len(REPO) + 1:]
        got = ran.get(name, set())
        for f in functions(compile(text, path, 'exec')):
            lines = sorted({l for _, l in dis.findlinestarts(f) if l} - {f.co_firstlineno})
            miss = [l for l in lines if l not in got]
            if miss:
                print('%s %s: %s' % (name, f.co_qualname, 'all' if len(miss) == len(lines) else miss))
