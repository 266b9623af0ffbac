"""C25: node types of an application, and every field type, work as the standard ones do."""
import numpy as np
from vrml import protonamespace, route
from vrml.vrml97 import nodetypes, nurbs, parseprocessor, scenegraph, script, shaders
from . import c04, c06
from .. import gen, lib, spec97, values
from ..rec import Violation

CLEANUP_EVERY = 20
STATE = {}
TYPES = sorted(set(spec97.TYPES) | set(gen.EXTRA))

# the extension nodes of the package: what they are declared to have
EXTENSIONS = r"""
Contour2D: x MFNode children []
Polyline2D: x MFVec2f point []
NurbsCurve2D: x MFFloat32 knot []; x SFInt32 order 3; x MFVec2f controlPoint []; x MFFloat32 weight []; x SFInt32 tessellation 0
NurbsCurve: x MFFloat32 knot []; x SFInt32 order 3; x MFVec3f controlPoint []; x MFColor color []; x MFFloat32 weight []; x SFInt32 tessellation 0
NurbsSurface: x SFInt32 uDimension 0; x SFInt32 vDimension 0; x MFFloat32 uKnot []; x MFFloat32 vKnot []; x SFInt32 uOrder 3; x SFInt32 vOrder 3; x MFVec3f controlPoint []; x MFColor color []; x MFFloat32 weight []; x SFInt32 uTessellation 0; x SFInt32 vTessellation 0; x SFNode texCoord NULL; f SFBool solid TRUE; f SFBool ccw TRUE
TrimmedSurface: x MFNode trimmingContour []; x SFNode surface NULL
NurbsGroup: x MFNode children []; x SFFloat tessellationScale 1; f SFVec3f bboxSize -1 -1 -1; f SFVec3f bboxCenter 0 0 0
ShaderGeometry: x MFInt32 indices []; x MFNode attributes []; x MFNode slices []; x MFNode uniforms []; x SFNode appearance NULL
ShaderSlice: x SFUInt32 offset -1; x SFUInt32 count -1; x MFNode uniforms []
ShaderAttribute: x SFString name ""; x SFUInt32 offset 0; x SFUInt32 stride 0; x SFUInt32 size 3; x SFString dataType "FLOAT"; x SFNode buffer NULL; x SFBool isCoord FALSE; x SFString bufferKey ""
ShaderBuffer: x SFString type "ARRAY"; x SFString usage "DYNAMIC_DRAW"; x SFArray32 buffer []
ShaderIndexBuffer: x SFString type "ELEMENT"; x SFString usage "DYNAMIC_DRAW"; x MFUInt32 buffer []
FloatUniform: x SFString name ""; x SFArray32 value []
IntUniform: x SFString name ""; x MFInt32 value []
TextureUniform: x SFString name ""; x SFNode value NULL
TextureBufferUniform: x SFString name ""; x SFNode value NULL; x SFString format "RGBA32F"
GLSLShader: x MFString url []; x MFString source []; x MFNode imports []; x SFString type "VERTEX"
GLSLImport: x MFString url []; x MFString source []
GLSLObject: x SFString role "VISIBLE"; x MFNode uniforms []; x MFNode shaders []; x MFNode textures []
Shader: x SFNode material NULL; x MFNode objects []; x SFNode implementation NULL
"""


def read_specs(text):
    out = {}
    for line in text.strip().splitlines():
        name, rest = line.split(':', 1)
        s = out[name] = spec97.Spec(name)
        for item in rest.split(';'):
            w = item.split()
            if w[1] in gen.EXTRA:
                default = [] if w[3] == '[]' else w[3]
            else:
                default = spec97._default(w[1], w[3:])
            s.fields[w[2]] = (w[0] == 'x', w[1], default)
    return out


def plan(tier, mode):
    k = 1 if tier == 'quick' else 12
    return [('own', 90 * k), ('package', 60 * k), ('types', 60 * k), ('instances', 40 * k), ('processor', 60 * k)]


def setup(ctx):
    STATE['specs'] = read_specs(EXTENSIONS)
    STATE['classes'] = {n: getattr(nurbs, n, None) or getattr(shaders, n) for n in STATE['specs']}
    STATE['base'] = dict(lib.basenamespaces.basePrototypes)


class Added:
    """Further node types in the generator's catalogue"""

    def __init__(self, specs):
        self.specs = specs

    def __enter__(self):
        self.before = dict(gen.NODES)
        gen.NODES.update(self.specs)

    def __exit__(self, *a):
        gen.NODES.clear()
        gen.NODES.update(self.before)


# ------------------------------------------------------------ making classes
MIXINS = [nodetypes.Children, nodetypes.Grouping, nodetypes.Rendering, nodetypes.Geometry, nodetypes.Transforming]


def default_of(rng, b, typ, ast):
    """What a programmer writes as the default of a field"""
    if typ == 'SFNode':
        return lib.NULL
    if typ == 'MFNode':
        return list
    value = b.value(typ, ast)
    if not isinstance(value, (list, tuple, np.ndarray)):
        return value
    return rng.choice([value, lambda: value]) if len(value) or rng.random() < .5 else list


def own_class(rng, g, b, specs, classes, k):
    """(name, Spec, class): a node type with some fields and events"""
    parent = None
    if rng.random() < .55:
        parent = rng.choice(sorted(classes) or ['Group']) if rng.random() < .4 else rng.choice(sorted(gen.NODES))
        if parent not in classes and parent not in lib.basenamespaces.basePrototypes:
            parent = None
    name = 'Own%d' % k
    spec = spec97.Spec(name)
    same = parent is not None and parent not in classes and rng.random() < .35
    if same:
        name = parent        # stands in for the standard type
    if parent is not None:
        old = specs.get(parent) or gen.NODES[parent]
        spec.fields.update(old.fields)
        spec.events.update(old.events)
    body = {}
    taken = set(spec.fields) | set(spec.events)
    for _ in range(rng.choice([0, 1, 2, 4, 8])):
        typ = rng.choice(TYPES)
        f = g.iface_name('f', sorted(taken))
        taken.add(f)
        exposed = rng.random() < .6
        ast = None if typ == 'SFNode' else [] if typ == 'MFNode' else gen.gvalue(rng, typ)
        spec.fields[f] = (exposed, typ, ast)
        body[f] = lib.field.newField(f, typ, int(exposed), default_of(rng, b, typ, ast))
    for _ in range(rng.choice([0, 0, 1, 3])):
        typ = rng.choice(TYPES)
        e = g.iface_name('e', sorted(taken))
        taken.add(e)
        out = rng.random() < .5
        spec.events[e] = ('out' if out else 'in', typ)
        body[e] = lib.field.newEvent(e, typ, int(out))
    # an inherited field with another default
    if parent is not None and rng.random() < .4:
        f = rng.choice(sorted(spec.fields) or [''])
        if f and f not in body and spec.fields[f][1] not in ('SFNode', 'MFNode'):
            exposed, typ, d = spec.fields[f]
            ast = gen.gvalue(rng, typ)
            spec.fields[f] = (exposed, typ, ast)
            body[f] = lib.field.newField(f, typ, int(exposed), default_of(rng, b, typ, ast))
    if parent is None:
        bases = tuple(rng.sample(MIXINS, rng.randint(0, 1))) + (lib.Node,)
        if rng.random() < .7:
            body['PROTO'] = name
    else:
        bases = (classes.get(parent) or lib.basenamespaces.basePrototypes[parent],)
        if not same or rng.random() < .5:
            body['PROTO'] = name
    cls = type('Own%d' % k if 'PROTO' in body and rng.random() < .5 else name, bases, body)
    return name, spec, cls


CATEGORY = {'Shader': 'appearance', 'ShaderGeometry': 'children', 'NurbsCurve': 'geometry', 'NurbsSurface': 'geometry', 'TrimmedSurface': 'geometry'}


def namespace(rng, classes):
    """The prototypes given to a processor"""
    base = lib.basenamespaces.basePrototypes
    ns = rng.choice([lambda: base.copy(), lambda: dict(base), lambda: protonamespace.ProtoNamespace(base)])()
    ns.update(classes)
    return ns


class OwnScene(scenegraph.SceneGraph):
    """An application's scene: it has a field of its own"""
    name = lib.field.newField('name', 'SFString', 1, 'unnamed')


class OwnRoute(route.ROUTE):
    """An application's ROUTE"""


class OwnScript(script._Script):
    """An application's Script"""


def own_script(fields, **named):
    return lib.node.prototype('Script', fields, baseClasses=(OwnScript,))(**named)


def stand_ins(rng, ns, rec):
    """The parts of a scene which are not written as nodes may be of own classes, too"""
    for name, cls in (('sceneGraph', OwnScene), ('ROUTE', OwnRoute), ('Script', own_script)):
        if rng.random() < .35:
            ns[name] = cls
            rec.count('own_' + name)


def parts(ns, ast, sg, rec, text, what, routes=True):
    """Scenes, ROUTEs and Scripts are of the classes of the namespace"""
    if type(sg) is not ns['sceneGraph']:
        raise Violation(what + 'class-scene', 'the scene is a %r, the namespace has %r' % (type(sg), ns['sceneGraph']), text)
    for r in sg.routes:
        if type(r) is not ns['ROUTE']:
            raise Violation(what + 'class-route', 'a ROUTE is a %r, the namespace has %r' % (type(r), ns['ROUTE']), text)
        rec.count('route_classes')
    for p in ast.protos.values():
        if p.body is not None:
            body = lib.getSceneGraph(sg.getProto(p.name))
            parts(ns, p.body, body, rec, text, what)


def parse(text, ns, processor=None):
    success, results, end = lib.parser().parse(text, processor=processor or parseprocessor.ParseProcessor(ns))
    if not success or end != len(text):
        raise lib.NotParsed('success=%r, parsed %r of %d characters' % (success, end, len(text)))
    return results[1]


def read_back(text, ns, first):
    try:
        return parse(text, ns)
    except Exception as exc:
        raise Violation('output-refused:' + type(exc).__name__, 'the written scene does not parse: %s' % lib.text_of(exc), text[:5000] + '\n=== from\n' + first[:3000])


def compare(rec, ast, sg, text, ns, options=(), flat=None, what=''):
    c = gen.Compare(rec, lib, options, flat)
    try:
        c.scene(ast, sg, 'scene')
    except gen.Mismatch as m:
        raise Violation(what + 'differs:' + m.what, m.text, text)
    for n in c.asts.values():
        if n.kind == 'std':
            o = c.map[id(n)]
            if type(o) is not ns[n.type]:
                raise Violation(what + 'class', '%s is a %r, the namespace has %r' % (n, type(o), ns[n.type]), text)
            rec.count('own_instances' if ns[n.type] is not STATE['base'].get(n.type) else 'standard_instances')
        elif n.kind == 'script':
            o = c.map[id(n)]
            want = OwnScript if ns['Script'] is own_script else script._Script
            if type(o).__bases__ != (want,):
                raise Violation(what + 'class-script', '%s is a %r, from %r' % (n, type(o), type(o).__bases__), text)
            rec.count('script_classes')
    if 'noprotos' not in options and 'nodefs' not in options:
        parts(ns, ast, sg, rec, text, what)
    return c


def run_case(kind, index, rng, rec, ctx):
    if kind == 'processor':
        return processor(index, rng, rec)
    classes, specs = {}, {}
    if kind == 'package':
        specs, classes = dict(STATE['specs']), dict(STATE['classes'])
    elif kind in ('own', 'instances'):
        g = gen.Gen(rng, weird=rng.random() < .5)
        b = gen.Build(lib, rng)
        for k in range(rng.randint(1, 5)):
            name, spec, cls = own_class(rng, g, b, specs, classes, k)
            specs[name], classes[name] = spec, cls
    own = {}
    for n in sorted(specs):
        for cat in [CATEGORY.get(n, 'children')] + rng.sample(['children', 'geometry', 'appearance', 'material', 'texture', 'coord'], rng.randint(0, 2)):
            own.setdefault(cat, []).append(n)
    ns = namespace(rng, classes)
    stand_ins(rng, ns, rec)
    before = dict(ns)
    with Added(specs):
        flags = dict(c04.FLAGS, size=rng.choice([5, 15, 30, 60]), depth=rng.choice([2, 3, 5]), own=own, types=TYPES, weird=rng.random() < .5)
        if kind == 'types':
            flags.update(minprotos=1, maxprotos=3, moreiface=True, prate=.3, irate=.6, israte=.8, bigvalues=.1)
        if kind == 'instances':
            flags.update(minprotos=1, maxprotos=3, moreiface=True, irate=.7, israte=.85, externs=False, hard=False, weird=False, use=.2)
        plain = kind == 'own' and rng.random() < .3
        if plain:
            flags.update(protos=False, scripts=False)
        g = gen.Gen(rng, **flags)
        ast = g.scene_ast()
        for k, v in g.stats.items():
            rec.count('gen_' + k, v)
        if rng.random() < .35:
            redefine(rng, ast, rec, 'redefined_written', set(classes))
        first = gen.Emitter(rng, rng.choice(['plain', 'plain', 'dense', 'wild'])).document(ast)
        sg = parse(first, ns)
        if kind == 'instances':
            c06.behave(rng, rec, ast, sg, first)
            rec.count('kind_instances')
            unchanged(rec, ns, before, first)
            return
        compare(rec, ast, sg, first, ns)
        used = uses(ast)
        style, text = c04.write(rng, sg)
        for n in sorted(classes):
            if ('PROTO %s ' % n) in text and n not in ast.protos and n not in nested(ast):
                raise Violation('declared-in-output', 'the written scene declares %s' % n, text)
        sg2 = read_back(text, ns, first)
        compare(rec, ast, sg2, text + '\n=== from\n' + first, ns, flat=sg2, what='written-')
        rec.count('style_' + style)
        if rng.random() < .3:
            copy = sg.copy()
            compare(rec, ast, copy, first, ns, ('noprotos', 'nodefs'), what='copy-')
            rec.count('copies')
        if plain:
            built = gen.Build(lib, rng, namespace=ns).scene(ast)
            compare(rec, ast, built, first, ns, ('nodefs',), what='built-')
            style, text = c04.write(rng, built)
            compare(rec, ast, read_back(text, ns, first), text, ns, ('nodefs',), what='built-written-')
            rec.count('built')
        # the standard namespace does not have them
        new = {n for n in used if n not in STATE['base']}
        if new and not (nested(ast) & set(classes)) and not set(classes) & set(STATE['base']):
            try:
                lib.parse(first)
            except NameError as exc:
                if not any(n in str(exc) for n in new):
                    raise Violation('refusal-names', '%s does not name any of %s' % (exc, sorted(new)), first)
            except Exception as exc:
                raise Violation('refusal-type', 'without the node types: %s' % lib.text_of(exc), first)
            else:
                raise Violation('not-refused', 'the scene is read without the node types %s' % sorted(new), first)
            rec.count('refused_without')
    unchanged(rec, ns, before, first)
    if kind == 'package':
        for n, cls in sorted(classes.items()):
            table(rec, n, specs[n], cls)
    rec.count('kind_' + kind)
    rec.nontrivial(first)
    if index in (2, 4):
        rec.sample(first)


def unchanged(rec, ns, before, text):
    for what, now, then in (('given', ns, before), ('base', lib.basenamespaces.basePrototypes, STATE['base'])):
        if set(now) != set(then) or any(now[k] is not then[k] for k in then):
            raise Violation('namespace-changed:' + what, 'reading changed %s' % sorted(k for k in set(now) | set(then) if now.get(k) is not then.get(k)), text)
    rec.count('namespaces_compared', 2)


def table(rec, name, spec, cls):
    """A node type of the package has what it is declared to have"""
    o = cls()
    have = {f.name: (bool(f.exposure), f.typeName()) for f in lib.getFields(cls) if not f.name.startswith(' ') and f.name != 'externalURL'}
    want = {f: (x, t) for f, (x, t, d) in spec.fields.items()}
    rec.require(have == want, 'package-fields', '%s has %r, expected %r' % (name, have, want))
    for f, (x, t, d) in spec.fields.items():
        v = getattr(o, f)
        ok = v is lib.NULL if t == 'SFNode' else list(v) == [] if t == 'MFNode' else gen.same_value(t, d, v)
        rec.require(ok, 'package-default', '%s.%s is %r, expected %r' % (name, f, v, d))
        rec.count('package_defaults')


def uses(ast):
    """Names of the node types the scene uses, not counting its own PROTOs"""
    out = set()

    def scene(s):
        for n in s.nodes:
            if n.kind == 'std':
                out.add(n.type)
        for p in s.protos.values():
            if p.body is not None:
                scene(p.body)
    scene(ast)
    return out


def nested(ast):
    return {p.name for p in c06.protos(ast)}


# --------------------------------------------------------- one processor, many texts
def processor(index, rng, rec):
    """A processor reads any number of texts, each as if it were the first"""
    classes, specs = {}, {}
    g = gen.Gen(rng, weird=False)
    b = gen.Build(lib, rng)
    for k in range(rng.randint(0, 2)):
        name, spec, cls = own_class(rng, g, b, specs, classes, k)
        specs[name], classes[name] = spec, cls
    ns = namespace(rng, classes)
    before = dict(ns)
    if classes or rng.random() < .6:
        p = parseprocessor.ParseProcessor(ns)
    else:
        p = parseprocessor.ParseProcessor()
    shown = []
    with Added(specs):
        for _ in range(rng.randint(2, 6)):
            flags = dict(c04.FLAGS, size=rng.choice([3, 10, 20]), own={'children': sorted(specs)} if specs else {}, types=TYPES, weird=False, minprotos=rng.choice([0, 1]))
            ast = gen.Gen(rng, **flags).scene_ast()
            if rng.random() < .3:
                redefine(rng, ast, rec, 'standard_types_redefined', set(classes))
            text = gen.Emitter(rng, 'plain').document(ast)
            shown.append(text)
            if rng.random() < .4:
                bad = broken(rng, text)
                shown.append(bad)
                try:
                    parse(bad, ns, p)
                except Exception:
                    rec.count('refused_in_between')
            try:
                sg = parse(text, ns, p)
            except Exception as exc:
                raise Violation('refused-later:' + type(exc).__name__, lib.text_of(exc), '\n=====\n'.join(shown)[-6000:])
            compare(rec, ast, sg, '\n=====\n'.join(shown)[-6000:], ns, what='later-')
            if sg.root is not None:
                raise Violation('later-root', 'the scene read has a root: %r' % (sg.root,), text)
            for name in ('Box', 'Transform') + tuple(ast.protos):
                want = sg.getProto(name)
                try:
                    got = getattr(sg.protoTypes, name)
                except AttributeError:
                    if isinstance(ns, protonamespace.ProtoNamespace):
                        raise Violation('namespace-attribute', 'protoTypes.%s is missing in a read scene' % name, text)
                    continue
                if got is not want and name not in ('copy', 'get'):
                    raise Violation('namespace-attribute', 'protoTypes.%s is %r, getProto gives %r' % (name, got, want), text)
            rec.count('texts_read')
    unchanged(rec, ns, before, shown[-1])
    rec.count('kind_processor')
    rec.nontrivial(*shown)


def redefine(rng, ast, rec, counter, classes):
    """A PROTO called as a node type the namespace has, which the scene does not use"""
    if ast.protos:
        q = rng.choice(sorted(ast.protos))
        std = rng.choice(sorted({'Box', 'Group', 'Shape', 'Material', 'Transform'} | classes))
        if std not in uses(ast) and std not in nested(ast):
            rename(ast, q, std)
            rec.count(counter)


def rename(ast, old, new):
    p = ast.protos.pop(old)
    if new in ast.protos:
        ast.protos[old] = p
        return
    p.name = new
    ast.protos[new] = p

    def scene(s):
        for n in s.nodes:
            if n.kind == 'inst' and n.decl is p:
                n.type = new
        for q in s.protos.values():
            if q.body is not None:
                scene(q.body)
    scene(ast)


def broken(rng, text):
    """A text which is refused in the middle of something"""
    k = rng.randrange(5)
    if k == 0:
        return text[:rng.randint(10, len(text))]
    i = rng.choice([j for j, c in enumerate(text) if c in ' \n'] or [len(text)])
    return text[:i] + rng.choice([' NoSuchNode { }', ' Group { children [ NoSuchNode { } ] }', ' Group { nosuchfield 5 }', ' USE NoSuchName', ' } ', ' PROTO Q [ field SFFloat x TRUE ] { }',
                                  ' PROTO Q [ ] { Group { children NoSuchNode { } } }', ' ROUTE a.b TO c.d', ' Script { field SFInt32 x 5 url TRUE }']) + text[i:]
