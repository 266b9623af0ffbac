"""C01: parsing builds exactly the document that was written."""
from .. import gen, lib
from ..rec import Violation

CLEANUP_EVERY = 20


def plan(tier, mode):
    n = 260 if tier == 'quick' else 4000
    return [('doc', n), ('typed', n // 2)]


def run_case(kind, index, rng, rec, ctx):
    if kind == 'doc':
        flags = dict(dup=rng.random() < .4, size=rng.choice([3, 8, 20, 40, 80]), depth=rng.choice([2, 3, 5, 8]))
        if rng.random() < .2:
            flags['use'] = .7
        if index % 29 == 7:
            flags.update(gen.LARGE)
            rec.count('large')
        g = gen.Gen(rng, **flags)
        ast = g.scene_ast()
        if rng.random() < .04:
            rec.maximum('nesting', gen.nest(rng, ast, rng.randint(10, 40)))
    else:
        # every field type, several values each, on a Script / PROTO interface and on the nodes that have it
        g = gen.Gen(rng, size=6, protos=index % 2 == 0, bigvalues=.25)
        ast = g.scene_ast()
        typ = gen.spec97.TYPES[index % len(gen.spec97.TYPES)]
        if typ not in ('SFNode', 'MFNode'):
            g.open_scene(None)
            for _ in range(4):
                n = gen.Node('Script', 'script')
                g.begin(n)
                for _ in range(3):
                    i = gen.Iface(rng.choice(['field', 'exposedField']), typ, g.ident('s'), gen.gvalue(rng, typ, True, rng.random() < .2))
                    n.iface.append(i)
                    n.members.append(('decl', i, None))
                g.end(n)
                g.scene.items.append(('node', n))
            for name, spec in rng.sample(sorted(gen.NODES.items()), len(gen.NODES)):
                fs = [f for f, (x, t, d) in spec.fields.items() if t == typ]
                if fs:
                    n = gen.Node(name)
                    g.begin(n)
                    for f in fs:
                        n.values[f] = gen.gvalue(rng, typ)
                        n.members.append(('field', f))
                    g.end(n)
                    g.scene.items.append(('node', n))
                    if len(g.scene.items) > 9:
                        break
            ast = g.close_scene()
    style = rng.choice(['plain', 'dense', 'wild', 'wild'])
    text = gen.Emitter(rng, style).document(ast)
    rec.count('characters', len(text))
    rec.count('style_' + style)
    for k, v in g.stats.items():
        rec.count('gen_' + k, v)
    if rng.random() < .15:
        data = text.encode('utf-8') if not any(ord(c) > 127 for c in text) and rng.random() < .3 else text
    else:
        data = text
    try:
        sg = lib.parse(data)
    except lib.NotParsed as exc:
        raise Violation('not-parsed', '%s\n%s' % (exc, text[:3000]))
    except Exception as exc:
        raise Violation('rejected:' + type(exc).__name__, 'valid document refused: %s' % (lib.text_of(exc)), text[:6000])
    try:
        gen.Compare(rec, lib).scene(ast, sg, 'scene')
    except gen.Mismatch as m:
        raise Violation('differs:' + m.what, m.text, text[:6000])
    rec.nontrivial(text)
    if index in (1, 2, 7):
        rec.sample(text[:1200])
