"""C04: writing a scene as VRML97 and parsing it again gives the same scene."""
import collections

from . import c06
from .. import gen, lib
from ..rec import Violation

CLEANUP_EVERY = 20
FLAGS = dict(dup=False, shadow=False, nameddefaults=False)
STYLES = ['defaults', 'defaults', 'minimal1']


def plan(tier, mode):
    k = 1 if tier == 'quick' else 12
    return [('doc', 300 * k), ('built', 160 * k), ('subtree', 120 * k), ('values', 160 * k), ('edited', 160 * k), ('instances', 60 * k)]


def document(rng, **more):
    flags = dict(FLAGS, size=rng.choice([3, 8, 20, 40, 80]), depth=rng.choice([2, 3, 5, 8]), use=rng.choice([.2, .3, .7]), bigvalues=rng.choice([.02, .02, .2]),
                 weird=rng.random() < .5)
    if not more and rng.random() < .03:
        flags.update(gen.LARGE, use=.5)
    flags.update(more)
    g = gen.Gen(rng, **flags)
    ast = g.scene_ast()
    if rng.random() < .03:
        gen.nest(rng, ast, rng.randint(10, 40))
    if rng.random() < .03:
        for kind in rng.choice([['Transform'], ['Transform', 'TimeSensor'], ['OrientationInterpolator', 'Group', 'Transform']]):
            for _ in range(rng.choice([15, 30, 60])):
                n = gen.Node(kind)
                ast.nodes.append(n)
                ast.items.append(('node', n))
    return g, ast


def write(rng, o, style=None):
    style = style or rng.choice(STYLES)
    return style, lib.linearise.linearise(o, getattr(lib.linearise, style))


def reparse(text, first):
    try:
        return lib.parse(text)
    except Exception as exc:
        raise Violation('output-refused:' + type(exc).__name__, 'the written scene does not parse: %s' % lib.text_of(exc), text[:5000] + '\n=== from\n' + first[:3000])


def compare(rec, ast, sg, text, first, options=(), flat=None, named=()):
    try:
        c = gen.Compare(rec, lib, options, flat)
        c.named = named
        c.scene(ast, sg, 'scene')
    except gen.Mismatch as m:
        raise Violation('differs:' + m.what, m.text, text[:5000] + '\n=== from\n' + first[:3000])


def run_case(kind, index, rng, rec, ctx):
    if kind == 'instances':
        g, ast = c06.document(rng, rng.random() < .6)
        first = gen.Emitter(rng, 'plain').document(ast)
        style, text = write(rng, lib.parse(first))
        sg2 = reparse(text, first)
        c06.behave(rng, rec, ast, sg2, text + '\n=== from\n' + first, flat=sg2)
        rec.count('kind_' + kind)
        rec.count('style_' + style)
        return
    if kind in ('doc', 'subtree'):
        g, ast = document(rng)
        first = gen.Emitter(rng, 'plain').document(ast)
        sg = lib.parse(first)
        for k, v in g.stats.items():
            rec.count('gen_' + k, v)
    elif kind == 'built':
        g, ast = document(rng, protos=False, scripts=False)
        first = gen.Emitter(rng, 'plain').document(ast)
        b = gen.Build(lib, rng)
        sg = b.scene(ast)
        if rng.random() < .3:
            sg = sg.copy()
    elif kind == 'edited':
        g, ast = document(rng, routes=False, events=False, protos=rng.random() < .3)
        first = gen.Emitter(rng, 'plain').document(ast)
        sg = lib.parse(first)
        edit(rng, rec, ast, sg)
    else:
        g, ast, first = values_scene(rng, index)
        sg = gen.Build(lib, rng).scene(ast)
    if kind == 'subtree':
        roots = [n for n in every(ast) if n is not None]
        if not roots:
            return
        n = rng.choice(roots)
        o = finder(rec, ast, sg)[id(n)]
        if rng.random() < .5:
            text = o.toString()
            style = 'defaults'
        else:
            style, text = write(rng, o)
        sub = gen.Scene()
        sub.items = [('node', n)]
        sg2 = reparse(text, first)
        compare(rec, sub, sg2, text, first, ('noroutes', 'nodefs', 'noprotos'))
        rec.count('subtrees')
    else:
        named = ()
        if kind != 'values' and rng.random() < .4:
            named = connect(rng, rec, ast, sg)
        nodefs = ('nodefs',) if named or kind in ('built', 'edited') else ()
        style, text = write(rng, sg)
        sg2 = reparse(text, first)
        compare(rec, ast, sg2, text, first, nodefs, sg2, named)
        if rng.random() < .25:
            # a second trip, in the other style
            style2, text2 = write(rng, sg2, 'minimal1' if style == 'defaults' else 'defaults')
            sg3 = reparse(text2, text)
            compare(rec, ast, sg3, text2, text, nodefs, sg3, named)
            rec.count('second_trips')
    rec.count('style_' + style)
    rec.count('kind_' + kind)
    rec.count('characters_written', len(text))
    rec.nontrivial(text)
    if index in (2, 4):
        rec.sample(text)


def values_scene(rng, index):
    """One node type with every field set to values of full float precision"""
    ast = gen.Scene()
    g = gen.Gen(rng)
    names = sorted(gen.NODES)
    import struct
    for k in range(3):
        n = gen.Node(names[(index * 3 + k) % len(names)])
        for f, (x, typ, d) in gen.NODES[n.type].fields.items():
            if typ in ('SFNode', 'MFNode'):
                continue
            v = gen.gvalue(rng, typ, True, rng.random() < .15)
            if typ not in ('SFBool', 'SFString', 'MFString', 'SFInt32', 'MFInt32', 'SFImage'):
                one = lambda: repr(float(precise(rng, typ)))
                if isinstance(v, str):
                    v = one()
                elif v and isinstance(v[0], list):
                    v = [[one() for _ in row] for row in v]
                else:
                    v = [one() for _ in v]
            n.values[f] = v
            n.members.append(('field', f))
        ast.items.append(('node', n))
    return g, ast, '(built)'


def precise(rng, typ):
    import struct
    if typ.endswith('Color'):
        return rng.choice([rng.random(), struct.unpack('<f', struct.pack('<f', rng.random()))[0]])
    if typ.endswith('Time'):
        return rng.choice([rng.random() * 10 ** rng.randint(-12, 12), 1234567890.123456 + rng.random(), rng.uniform(-1, 1), float(rng.randint(-10 ** 15, 10 ** 15))])
    k = rng.randrange(3)
    if k == 0:
        while True:
            v = struct.unpack('<f', struct.pack('<I', rng.getrandbits(32)))[0]
            if v == v and abs(v) < 3e38:
                return v
    if k == 1:
        return struct.unpack('<f', struct.pack('<f', rng.uniform(-1000, 1000)))[0]
    return rng.uniform(-10, 10)


def every(ast):
    """Nodes of the root scene, with what is below them"""
    seen, out, todo = set(), [], list(ast.roots())
    while todo:
        n = todo.pop()
        if n is None or id(n) in seen:
            continue
        seen.add(id(n))
        out.append(n)
        for v in n.values.values():
            if isinstance(v, gen.Node):
                todo.append(v)
            elif isinstance(v, list):
                todo.extend(x for x in v if isinstance(x, gen.Node))
    return out


def finder(rec, ast, sg, options=(), named=()):
    c = gen.Compare(rec, lib, options)
    c.named = named
    c.scene(ast, sg, 'scene')
    return c.map


def connect(rng, rec, ast, sg):
    """More ROUTEs, between any nodes: those without a name get one when they are written.  Gives the ids of those"""
    where = finder(rec, ast, sg, ('nodefs',))
    nodes = [n for n in every(ast) if n is not None]
    free = set()
    count = rng.choice([1, 2, 5])
    if len(nodes) > 40:
        # many nodes of one type get names
        count = rng.choice([1, 20, 60])
        commonest = collections.Counter(n.type for n in nodes if gen.ports(n) and not n.name).most_common(2)
        rec.count('many_routed', count > 5)
    for _ in range(count):
        if count > 5:
            few = [n for n in nodes if rng.random() < .2 or any(n.type == t for t, k in commonest)]
        else:
            few = nodes
        srcs = [(n, p) for n in rng.sample(few, min(12, len(few))) for p in gen.ports(n)]
        outs = [s for s in srcs if s[1][2] in ('out', 'both')]
        if not outs:
            continue
        n, (sf, typ, _d) = rng.choice(outs)
        ins = [d for d in srcs if d[1][2] in ('in', 'both') and d[1][1] == typ and (d[0] is not n or d[1][0] != sf)]
        if not ins:
            continue
        m, (df, _t, _d) = rng.choice(ins)
        a, b = where[id(n)], where[id(m)]
        k = rng.randrange(3)
        if k == 0:
            sg.addRoute(lib.route.ROUTE(source=a, sourceField=sf, destination=b, destinationField=df))
        elif k == 1:
            sg.addRoute((a, sf, b, df))
        else:
            sg.addRoute(a, sf, b, df)
        ast.routes.append(gen.Route(n, sf, m, df))
        for x in (n, m):
            if not x.name:
                free.add(id(x))
                rec.count('unnamed_routed')
                if rng.random() < .3:
                    # a name which would be given is taken
                    taken = '%s_%d' % (x.type, rng.randrange(2))
                    others = [y for y in nodes if not y.name and id(y) not in free]
                    if others and sg.getDEF(taken) is None:
                        y = rng.choice(others)
                        sg.regDefName(taken, where[id(y)])
                        y.name = taken
                        rec.count('names_taken')
    return free


def edit(rng, rec, ast, sg):
    """The same changes to the scene and to the AST"""
    nodes = [n for n in every(ast) if n.kind == 'std']
    where = finder(rec, ast, sg)
    b = gen.Build(lib, rng)
    held = []      # (what is built is known by the id of its AST)
    for _ in range(rng.randint(1, 12) if nodes else 0):
        n = rng.choice(nodes)
        o = where[id(n)]
        f, (x, typ, d) = rng.choice(sorted(gen.NODES[n.type].fields.items()))
        if rng.random() < .05:
            lib.linearise.linearise(sg)      # writing in between changes nothing
        if typ == 'SFNode':
            if rng.random() < .5:
                setattr(o, f, None)
                n.values[f] = None
            continue
        if typ == 'MFNode':
            now = n.values.setdefault(f, [])
            kids = getattr(o, f)
            k = rng.randrange(4)
            if k == 0 and now:
                i = rng.randrange(len(now))
                del now[i], kids[i]
            elif k == 1:
                new = gen.Node(rng.choice(['PointLight', 'WorldInfo', 'Shape']))
                held.append(new)
                i = rng.randint(0, len(now))
                now.insert(i, new)
                kids.insert(i, b.node(new))
            elif k == 2:
                setattr(o, f, [])
                n.values[f] = []
            elif now and all(now.count(z) == 1 for z in now):
                now.reverse()
                setattr(o, f, list(reversed(kids)))
            rec.count('edits_of_lists')
            continue
        if rng.random() < .2 and f in n.values:
            delattr(o, f)
            del n.values[f]
            rec.count('edits_deleting')
            continue
        n.values[f] = gen.gvalue(rng, typ)
        setattr(o, f, b.value(typ, n.values[f]))
        rec.count('edits_of_values')
