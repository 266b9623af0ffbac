"""Which small changes of the repository's Python code no check notices.

mutate.py REPO-COPY VERIF-COPY OUT.jsonl N SEED [file...]: makes N random mutants in the scratch copy of the repository, drops those
which fail its tests, and runs the checks of the properties anchored in the file, then the others, until one reports a violation.
"""
import ast
import json
import os
import random
import subprocess
import sys
import time

repo, verif, out, n, seed = sys.argv[1:6]
rng = random.Random(int(seed))
sys.path.insert(0, verif)
sys.dont_write_bytecode = True
from vlib import texts  # noqa: E402

files = sys.argv[6:] or [os.path.join(d, f)[len(repo) + 1:] for d, _, fs in sorted(os.walk(os.path.join(repo, 'vrml'))) for f in sorted(fs)
                         if f.endswith('.py') and '200x' not in d and 'test' not in f and f not in ('csscolors.py', 'basenodes.py', '__init__.py')]
CMP = {ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.In: 'not in', ast.NotIn: 'in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.Mod: '*'}


def mutants(text):
    """(start, end, new, what) of replacements by offset"""
    tree = ast.parse(text)
    starts = [0]
    data = text.encode()
    for line in data.split(b'\n'):
        starts.append(starts[-1] + len(line) + 1)
    pos = lambda node: (starts[node.lineno - 1] + node.col_offset, starts[node.end_lineno - 1] + node.end_col_offset)
    src = lambda node: data[slice(*pos(node))].decode()
    res = []
    inside = []

    def visit(node, infun):
        if isinstance(node, (ast.FunctionDef, ast.Lambda)):
            infun = True
        for field, value in ast.iter_fields(node):
            for child in value if isinstance(value, list) else [value]:
                if isinstance(child, ast.AST):
                    visit(child, infun)
        if not infun or not hasattr(node, 'lineno'):
            return
        add = lambda nd, new, what: res.append(pos(nd) + (new, what))
        if isinstance(node, ast.Compare) and len(node.ops) == 1 and type(node.ops[0]) in CMP:
            add(node, '%s %s %s' % (src(node.left), CMP[type(node.ops[0])], src(node.comparators[0])), 'compare')
        elif isinstance(node, ast.BoolOp):
            op = ' or ' if isinstance(node.op, ast.And) else ' and '
            add(node, '(' + op.join(src(v) for v in node.values) + ')', 'boolop')
            for k in range(len(node.values)):
                add(node, '(' + {' or ': ' and ', ' and ': ' or '}[op].join(src(v) for i, v in enumerate(node.values) if i != k) + ')', 'boolop-drop')
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            add(node, '(' + src(node.operand) + ')', 'not')
        elif isinstance(node, ast.BinOp) and type(node.op) in BIN and not isinstance(node.left, ast.Constant):
            add(node, '%s %s %s' % (src(node.left), BIN[type(node.op)], src(node.right)), 'binop')
        elif isinstance(node, (ast.If, ast.IfExp, ast.While)):
            add(node.test, 'False', 'never')
            if not isinstance(node, ast.While):
                add(node.test, 'True', 'always')
        elif isinstance(node, ast.Constant):
            if isinstance(node.value, bool):
                add(node, str(not node.value), 'bool')
            elif isinstance(node.value, int):
                add(node, str(node.value + 1), 'int')
                if node.value:
                    add(node, str(node.value - 1), 'int')
            elif node.value is None:
                pass
        elif isinstance(node, (ast.Assign, ast.AugAssign, ast.Delete, ast.Raise, ast.Continue, ast.Break)) or isinstance(node, ast.Expr) and not isinstance(node.value, ast.Constant):
            add(node, 'pass', 'drop')
        elif isinstance(node, ast.Return) and node.value is not None and not (isinstance(node.value, ast.Constant) and node.value.value is None):
            add(node.value, 'None', 'return-none')
        elif isinstance(node, ast.Slice):
            for part in (node.lower, node.upper, node.step):
                if part is not None:
                    add(part, '', 'slice')
        elif isinstance(node, ast.Call):
            for a in node.args[1:]:
                pass
            if len(node.args) + len(node.keywords) > 1:
                last = (node.keywords and node.keywords[-1].value) or node.args[-1]
                if node.keywords:
                    kw = node.keywords[-1]
                    if kw.arg:
                        a, b = pos(kw)
                        while data[a - 1:a] in (b' ', b'\n', b'\t'):
                            a -= 1
                        if data[a - 1:a] == b',':
                            res.append((a - 1, b, '', 'kwarg'))
        elif isinstance(node, ast.ExceptHandler) and node.type is not None and isinstance(node.type, ast.Tuple):
            for k in range(len(node.type.elts)):
                add(node.type, '(' + ''.join(src(e) + ', ' for i, e in enumerate(node.type.elts) if i != k) + ')', 'except')
        elif isinstance(node, ast.For):
            add(node.iter, 'list(%s)[1:]' % src(node.iter), 'for-skip')
            add(node.iter, 'list(%s)[:1]' % src(node.iter), 'for-one')

    visit(tree, False)
    return res


def sh(cmd, cwd, timeout, **env):
    try:
        return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=timeout, env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', **env))
    except subprocess.TimeoutExpired:
        return None


subprocess.run(['git', 'checkout', '-q', '--', '.'], cwd=repo)
pool = []
for f in files:
    text = open(os.path.join(repo, f)).read()
    for m in mutants(text):
        pool.append((f,) + m)
rng.shuffle(pool)
# an even hand over the files
seen = set()
if os.path.exists(out):
    seen = {tuple(json.loads(l)['key']) for l in open(out)}
print(len(pool), 'mutants in all')
done = 0
for f, a, b, new, what in pool:
    if done >= int(n):
        break
    key = (f, a, b, new)
    if key in seen:
        continue
    path = os.path.join(repo, f)
    data = open(path, 'rb').read()
    mutated = data[:a] + new.encode() + data[b:]
    try:
        compile(mutated, path, 'exec')
    except SyntaxError:
        continue
    line = data[:a].count(b'\n') + 1
    entry = {'key': key, 'file': f, 'line': line, 'what': what, 'old': data[a:b].decode()[:200], 'new': new[:200], 'text': data.decode().splitlines()[line - 1].strip()}
    t0 = time.time()
    try:
        open(path, 'wb').write(mutated)
        r = sh(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=60'], repo, 100)
        if r is None or r.returncode:
            entry['result'] = 'tests'
        else:
            done += 1
            order = sorted(texts.TEXTS, key=lambda p: (f not in texts.TEXTS[p]['files'], p))
            if os.environ.get('MUTATE_NEAR'):
                order = [p for p in order if f in texts.TEXTS[p]['files']] or order
            entry['result'] = 'survived'
            for c in order:
                r = sh([sys.executable, 'check.py', c], verif, 600, VERIF_REPO=repo, VERIF_SEED='1', VERIF_TIER='quick')
                if r is None or r.returncode == 2:
                    entry.setdefault('odd', []).append(c)
                elif r.returncode == 1:
                    entry['result'] = c
                    break
    finally:
        open(path, 'wb').write(data)
    entry['time'] = round(time.time() - t0, 1)
    with open(out, 'a') as fh:
        fh.write(json.dumps(entry) + '\n')
    print(entry['result'], f, line, what, entry['old'][:60].replace('\n', ' '), '->', new[:40], flush=True)
