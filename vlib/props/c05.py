"""C05: writing a scene changes nothing, gives the same text every time, and is stable."""
import numpy as np

from .. import gen, lib
from ..rec import Violation
from . import c04

CLEANUP_EVERY = 20


def plan(tier, mode):
    k = 1 if tier == 'quick' else 12
    return [('doc', 320 * k), ('built', 160 * k), ('interleaved', 120 * k)]


def snapshot(sg, names=True):
    """Everything reachable, by identity and value"""
    out, todo, seen = {}, [sg], set()
    while todo:
        o = todo.pop()
        if id(o) in seen:
            continue
        seen.add(id(o))
        if isinstance(o, type):
            body = None if lib.builtin(o) else lib.getSceneGraph(o)
            out[id(o)] = ('class', tuple(sorted((f.name, repr(getattr(f, 'defaultobj', None))) for f in lib.getFields(o) if not isinstance(getattr(f, 'defaultobj', None), (lib.Node, list)))),
                          tuple(sorted(f.name for f in lib.getFields(o, 1))), id(body), tuple(sorted((k, tuple((id(n), f) for n, f in v)) for k, v in lib.node.ismaps(o).items())))
            if isinstance(body, lib.Node):
                todo.append(body)
            continue
        if isinstance(o, list):
            out[id(o)] = ('list', type(o).__name__, tuple(id(x) if isinstance(x, lib.Node) else repr(x) for x in o))
            todo.extend(x for x in o if isinstance(x, lib.Node))
            continue
        vals = []
        for k, v in sorted(vars(o).items()):
            if stored_default(o, k) or k == 'defNames' and not names:
                continue
            if isinstance(v, np.ndarray):
                vals.append((k, 'array', id(v), v.dtype.str, v.shape, v.tobytes()))
            elif isinstance(v, (lib.Node, list)):
                vals.append((k, 'object', id(v)))
                todo.append(v)
            elif isinstance(v, dict):
                vals.append((k, 'dict', tuple((a, id(b)) for a, b in v.items() if a)))
                todo.extend(b for b in v.values() if isinstance(b, lib.Node) or (isinstance(b, type) and not lib.builtin(b)))
            else:
                vals.append((k, 'value', repr(v)))
        out[id(o)] = (type(o).__name__, tuple(vals))
    return out


def stored_default(o, name):
    """Reading a field may store a copy of its default: not a change"""
    v = vars(o)[name]
    if isinstance(v, (list, np.ndarray)) and len(v) == 0:
        return True
    f = {f.name: f for f in lib.getFields(o)}.get(name)
    if f is None:
        return name == ' DEF' and v == ''
    try:
        d = f.coerce(f.getDefault())
        if isinstance(v, np.ndarray):
            return bool(np.array_equal(d, v))
        if isinstance(v, list):
            return len(v) == len(d) and all(x is y if isinstance(x, lib.Node) else x == y for x, y in zip(v, d))
        if isinstance(v, lib.Node):
            return v is d
        return isinstance(v, (str, int, float, lib.NullNode)) and bool(d == v)
    except Exception:
        return False


def diff(a, b):
    for k in b:
        if k in a and a[k] != b[k]:
            return '%r\nbecame\n%r' % (str(a[k])[:1500], str(b[k])[:1500])
        if k not in a:
            return 'new object %r' % (str(b[k])[:600],)
    for k in a:
        if k not in b:
            return 'object gone: %r' % (str(a[k])[:600],)
    return None


def run_case(kind, index, rng, rec, ctx):
    if kind == 'built':
        g, ast = c04.document(rng, protos=False, scripts=False)
        sg = gen.Build(lib, rng).scene(ast)
        first = '(built)'
    else:
        g, ast = c04.document(rng)
        first = gen.Emitter(rng, 'plain').document(ast)
        sg = lib.parse(first)
    style = rng.choice(c04.STYLES)
    values = getattr(lib.linearise, style)
    values_before = dict(values)
    events = []
    named = c04.connect(rng, rec, ast, sg) if rng.random() < .3 else ()
    if named:
        lib.linearise.linearise(sg, values)      # names the nodes at the ends of ROUTEs
        rec.count('named_by_writing')
    before = snapshot(sg)

    def heard(*args, **named):
        events.append(named.get('signal'))

    lib.dispatcher.connect(heard)      # any signal from anything
    try:
        text = lib.linearise.linearise(sg, values)
        again = lib.linearise.linearise(sg, values)
        other = lib.linearise.Lineariser(values).linear(sg)
        lin = lib.linearise.Lineariser(values)
        if kind == 'interleaved':
            nodes = [n for n in c04.every(ast) if n is not None]
            where = c04.finder(rec, ast, sg, ('nodefs',), named)
            for n in rng.sample(nodes, min(len(nodes), 5)):
                a = lin.linear(where[id(n)])
                b = lib.linearise.linearise(where[id(n)], values)
                rec.require(a == b, 'reused-writer-differs', 'a writer used before gives another text for %r' % n, a[:2500] + '\n=== fresh\n' + b[:2500])
                rec.count('reused_writers')
        third = lin.linear(sg)
    finally:
        lib.dispatcher.disconnect(heard)
    ours = [e for e in events if isinstance(e, tuple)]
    rec.require(not ours, 'sends-events', 'writing sent %r' % (ours[:3],), first[:3000])
    d = diff(before, snapshot(sg))
    rec.require(d is None, 'changes-the-scene', d or '', first[:3000])
    rec.require(dict(values) == values_before, 'changes-the-style', 'the style table %s changed' % style, '')
    for what, t in (('repeated', again), ('fresh-writer', other), ('reused-writer', third)):
        rec.require(t == text, what + '-differs', 'writing the same scene twice gives different texts', text[:3000] + '\n=== then\n' + t[:3000])
    rec.count('scenes_compared_before_and_after')
    rec.count('objects_snapshot', len(before))
    # the text of the text
    try:
        sg2 = lib.parse(text)
    except Exception as exc:
        raise Violation('output-refused', lib.text_of(exc), text[:5000])
    text2 = lib.linearise.linearise(sg2, values)
    rec.require(text2 == text, 'not-stable', 'writing the scene parsed from the text gives another text', text[:3500] + '\n=== then\n' + text2[:3500])
    rec.count('stable_texts')
    rec.nontrivial(text)
    if index in (2, 4):
        rec.sample(text)
