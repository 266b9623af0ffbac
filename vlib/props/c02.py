"""C02: DEF/USE identity, scoping of DEF and PROTO names, independence of parses."""
from .. import gen, lib
from ..rec import Violation

CLEANUP_EVERY = 20


def plan(tier, mode):
    k = 1 if tier == 'quick' else 12
    return [('scopes', 500 * k), ('independent', 120 * k), ('negative', 300 * k), ('override', 120 * k)]


def compare(rec, ast, sg, text, where='scene'):
    try:
        return gen.Compare(rec, lib).scene(ast, sg, where)
    except gen.Mismatch as m:
        raise Violation('differs:' + m.what, m.text, text[:6000])


def parse(text, p=None):
    try:
        return lib.parse(text, p)
    except lib.NotParsed as exc:
        raise Violation('not-parsed', '%s\n%s' % (exc, text[:3000]))
    except Exception as exc:
        raise Violation('rejected:' + type(exc).__name__, 'valid document refused: %s' % (lib.text_of(exc)), text[:6000])


def reachable(sg):
    """id -> object for every node and node list below a scene (prototype bodies included)"""
    seen, todo = {}, [sg]
    while todo:
        o = todo.pop()
        if id(o) in seen or isinstance(o, lib.NullNode):
            continue
        seen[id(o)] = o
        if isinstance(o, list):
            todo.extend(x for x in o if isinstance(x, lib.Node))
            continue
        if isinstance(o, lib.scenegraph.SceneGraph):
            todo.extend(v for v in o.defNames.values() if v is not None)
            for cls in list(o.protoTypes.values()):
                if isinstance(cls, type) and not lib.builtin(cls):
                    body = lib.getSceneGraph(cls)
                    if isinstance(body, lib.Node):
                        todo.append(body)
        for name, v in list(vars(o).items()):
            if name in (' root',):
                continue
            if isinstance(v, (list, lib.Node)):
                todo.append(v)
    return seen


def run_case(kind, index, rng, rec, ctx):
    globals()['case_' + kind](index, rng, rec, ctx)


def case_scopes(index, rng, rec, ctx):
    more = {}
    if rng.random() < .06:
        # deep in each other, or many
        more = dict(size=rng.choice([150, 400]), protodepth=rng.choice([2, 8, 15]), nestrate=.8, minprotos=2, maxprotos=6, depth=rng.choice([3, 8]), roots=(5, 60))
        rec.count('large_documents')
    g = gen.Gen(rng, **dict(dict(dup=True, shadow=True, use=rng.choice([.3, .6, .8]), size=rng.choice([10, 25, 50]), weird=rng.random() < .3, hard=False), **more))
    g.f['protos'] = True
    ast = g.scene_ast()
    text = gen.Emitter(rng, rng.choice(['plain', 'wild'])).document(ast)
    sg = parse(text, lib.parser(fresh=True) if index % 10 == 0 else None)
    compare(rec, ast, sg, text)
    for k in ('uses', 'redefined_names', 'names_shared_between_scopes', 'shadowed_protos', 'instances', 'protos'):
        rec.count('gen_' + k, g.stats.get(k, 0))
    if g.stats.get('uses') and (g.stats.get('protos') or g.stats.get('redefined_names')):
        rec.nontrivial(text)
    if index in (3, 8):
        rec.sample(text)


def case_independent(index, rng, rec, ctx):
    """Several scenes from one parser: nothing shared, and changing one leaves the others as written"""
    p = lib.parser(fresh=rng.random() < .1)
    docs = []
    for _ in range(rng.randint(2, 4)):
        if docs and rng.random() < .4:
            docs.append((docs[0][0], docs[0][1]))
        else:
            # the same seed of names: documents use the same DEF and PROTO names
            g = gen.Gen(rng, dup=True, size=rng.choice([5, 15, 30]), weird=False, hard=False)
            ast = g.scene_ast()
            docs.append((ast, gen.Emitter(rng, 'plain').document(ast)))
    scenes = [(ast, text, parse(text, p)) for ast, text in docs]
    owner = {}
    for k, (ast, text, sg) in enumerate(scenes):
        compare(rec, ast, sg, text, 'document %d' % k)
        for i, o in reachable(sg).items():
            if i in owner and owner[i][0] != k:
                raise Violation('shared-between-parses', '%r is part of documents %d and %d' % (o, owner[i][0], k), text[:6000])
            owner[i] = (k, o)
            rec.count('objects_checked_for_sharing')
    victim = rng.randrange(len(scenes))
    for o in reachable(scenes[victim][2]).values():
        vandalise(o, rng)
    for k, (ast, text, sg) in enumerate(scenes):
        if k != victim:
            compare(rec, ast, sg, text, 'document %d after changing document %d' % (k, victim))
    ast, text, _sg = scenes[victim]
    compare(rec, ast, parse(text, p), text, 'document %d parsed again after changing its first scene' % victim)
    rec.count('scenes_vandalised')
    rec.nontrivial(*[d[1] for d in docs])
    owner.clear()


def vandalise(o, rng):
    """Change everything that can be changed in place"""
    if isinstance(o, lib.scenegraph.SceneGraph):
        if rng.random() < .5:
            o.defNames.clear()
        del o.routes[:]
        o.addProto(lib.node.prototype('P' + str(rng.randint(1, 9))))
        o.regDefName('D' + str(rng.randint(1, 9)), lib.basenodes.Group())
    elif isinstance(o, list):
        if len(o):
            del o[rng.randrange(len(o))]
    elif isinstance(o, lib.Node) and not isinstance(o, lib.route.ROUTE):
        for f in lib.getFields(o):
            if f.name.startswith(' '):
                continue
            v = vars(o).get(f.name)
            if v is None:
                if rng.random() < .8:
                    continue
                v = getattr(o, f.name)
            if hasattr(v, 'dtype') and v.size:
                v[...] = 7
            elif isinstance(v, list) and not isinstance(v, lib.olist.OList):
                v.append('vandal') if f.typeName() == 'MFString' else None
            elif f.typeName() == 'SFString':
                setattr(o, f.name, 'vandal')


# ----------------------------------------------------------------- negatives
def negative_documents(rng, ident):
    """(mechanism, document) whose only fault is a name used outside its scope"""
    d, e, p, q = ident('D'), ident('E'), ident('P'), ident('Q')
    geo = rng.choice(['Box', 'Sphere', 'Cone'])
    return rng.choice([
        ('use-before-def', 'Group { children [ USE %s DEF %s Group {} ] }' % (d, d)),
        ('use-before-def', 'USE %s DEF %s Group {}' % (d, d)),
        ('use-undefined', 'DEF %s Group { children [ DEF %s Group {} USE %s ] }' % (d, e, ident('F'))),
        ('use-of-outer-name', 'DEF %s Shape {} PROTO %s [ ] { Group { children [ USE %s ] } } %s {}' % (d, p, d, p)),
        ('use-of-outer-name', 'PROTO %s [ ] { DEF %s Group { } PROTO %s [ ] { USE %s } } %s {}' % (p, d, q, d, p)),
        ('use-of-inner-name', 'PROTO %s [ ] { DEF %s Group {} } %s {} Group { children [ USE %s ] }' % (p, d, p, d)),
        ('use-of-inner-name', 'PROTO %s [ ] { PROTO %s [ ] { DEF %s Group {} } USE %s } %s {}' % (p, q, d, d, p)),
        ('use-of-inner-name', 'PROTO %s [ ] { DEF %s Group {} } DEF %s %s {} USE %s' % (p, d, e, p, d)),
        ('route-to-outer-name', 'DEF %s TimeSensor {} PROTO %s [ ] { DEF %s PositionInterpolator {} ROUTE %s.fraction_changed TO %s.set_fraction } %s {}' % (d, p, e, d, e, p)),
        ('route-to-inner-name', 'PROTO %s [ ] { DEF %s TimeSensor {} } DEF %s PositionInterpolator {} %s {} ROUTE %s.fraction_changed TO %s.set_fraction' % (p, d, e, p, d, e)),
        ('route-to-later-name', 'DEF %s TimeSensor {} ROUTE %s.fraction_changed TO %s.set_fraction DEF %s PositionInterpolator {}' % (d, d, e, e)),
        ('proto-of-inner-scope', 'PROTO %s [ ] { PROTO %s [ ] { Group {} } %s {} } %s {} %s {}' % (p, q, q, p, q)),
        ('proto-before-declaration', '%s {} PROTO %s [ ] { Group {} }' % (p, p)),
        ('proto-undeclared', 'Shape { geometry %s {} }' % p),
        ('proto-used-within-itself', 'PROTO %s [ ] { Group { children [ %s {} ] } } %s {}' % (p, p, p)),
        ('proto-of-sibling-scope', 'PROTO %s [ ] { PROTO %s [ ] { Shape { geometry %s {} } } Group {} } PROTO %s [ ] { %s {} } %s {}' % (p, q, geo, ident('R'), q, p)),
    ])


def case_negative(index, rng, rec, ctx):
    g = gen.Gen(rng, weird=rng.random() < .4)
    head = ''
    if rng.random() < .5:
        g2 = gen.Gen(rng, size=8, weird=False, hard=False, dup=False)
        g2.n = 5000
        head = gen.Emitter(rng, 'plain', header=False).document(g2.scene_ast())
    mech, body = negative_documents(rng, g.ident)
    if rng.random() < .25:
        # the fault is far from what it refers to
        fill = ' '.join('DEF %s Group { }' % g.ident('X') for _ in range(rng.choice([1, 10, 80])))
        cut = [i for i in range(len(body)) if body.startswith((' PROTO', ' USE', ' ROUTE', ' Shape'), i) and body[:i].count('[') == body[:i].count(']')
               and not body[:i].rstrip().endswith('children') and 'children [' not in body[max(0, i - 30):i]]
        at = rng.choice(cut) if cut else 0
        inside = body[:at].count('{') - body[:at].count('}')
        if not inside:
            body = body[:at] + ' ' + fill + ' ' + body[at:]
            rec.count('faults_apart')
    if rng.random() < .3:
        # deep in other declarations
        for k in range(rng.randint(1, 8)):
            w = g.ident('W')
            body = 'PROTO %s [ ] { Group { } %s }%s' % (w, body, ' %s { }' % w if rng.random() < .5 else '')
            rec.count('faults_nested')
    text = '#VRML V2.0 utf8\n' + head + body + ' '
    p = lib.parser(fresh=index % 12 == 0)
    if rng.random() < .5:
        # the names exist in another document parsed before
        other = body.split()
        names = sorted({w for w in other if any(c.isdigit() for c in w) and '.' not in w and '{' not in w})
        pre = '#VRML V2.0 utf8\n' + ' '.join('DEF %s Group {} PROTO %s [ ] { Group {} } ' % (n, n) for n in names)
        parse(pre, p)
        rec.count('names_of_other_documents', len(names))
    try:
        lib.parse(text, p)
    except (lib.NotParsed, Exception):
        rec.count('rejected_' + mech)
        rec.nontrivial(text)
        return
    raise Violation('accepted:' + mech, 'a name used out of its scope is accepted', text)


def case_override(index, rng, rec, ctx):
    """A PROTO may be named like a built-in node; only its own document and scope see it"""
    name = rng.choice(['Box', 'Sphere', 'Cone', 'Group', 'Transform', 'Shape', 'Material', 'TimeSensor', 'WorldInfo', 'Anchor', 'Fog'])
    f = 'q%d' % rng.randint(1, 99)
    p = lib.parser(fresh=rng.random() < .1)
    builtin = lib.basenamespaces.basePrototypes[name]
    inner = rng.random() < .5
    if inner:
        text = '#VRML V2.0 utf8\nPROTO Outer [ ] { PROTO %s [ field SFFloat %s 2 ] { PointLight {} } DEF A %s { %s 3 } } Outer {} %s {} ' % (name, f, name, f, name)
    else:
        text = '#VRML V2.0 utf8\nDEF A %s {} PROTO %s [ field SFFloat %s 2 ] { PointLight {} } DEF B %s { %s 3 } ' % (name, name, f, name, f)
    sg = parse(text, p)
    if inner:
        body = lib.getSceneGraph(sg.getProto('Outer'))
        mine, plain = body.children[0], sg.children[1]
        rec.require(sg.getProto(name) is builtin, 'inner-proto-leaks', 'PROTO %s of an inner scope is known outside' % name, text)
    else:
        mine, plain = sg.children[1], sg.children[0]
    rec.require(type(plain) is builtin, 'builtin-shadowed', '%r should be the built-in %s' % (plain, name), text)
    rec.require(not lib.builtin(type(mine)) and getattr(mine, f) == 3.0, 'override-ignored', '%r should be an instance of the declared PROTO' % (mine,), text)
    text2 = '#VRML V2.0 utf8\n%s {}\n' % name
    sg2 = parse(text2, p)
    rec.require(type(sg2.children[0]) is builtin, 'proto-leaks-to-other-document', '%r in a later document' % (sg2.children[0],), text)
    rec.require(lib.basenamespaces.basePrototypes[name] is builtin, 'builtin-replaced', 'the built-in %s changed' % name, text)
    rec.count('overrides')
    rec.nontrivial(text)
