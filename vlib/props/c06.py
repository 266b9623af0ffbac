"""C06: PROTO instances are copies of the body, with IS values, isolated from each other."""
from .. import flow, gen, lib
from ..rec import Violation

CLEANUP_EVERY = 20


def plan(tier, mode):
    k = 1 if tier == 'quick' else 12
    return [('doc', 300 * k), ('nested', 240 * k), ('tower', 60 * k)]


def document(rng, nested):
    g = gen.Gen(rng, size=rng.choice([15, 30, 60, 90]), depth=rng.choice([2, 3, 4]), prate=.35 if nested else .2, irate=.8, minprotos=2, maxprotos=4,
                israte=.85, moreiface=True, weird=False, hard=False, use=rng.choice([.1, .3]), shadow=False, nameddefaults=False, nestrate=.4 if nested else .2,
                externs=False)
    return g, g.scene_ast()


def tower(rng, rec):
    """Declarations which use each other to a depth, or many times, or with much of everything"""
    deep = rng.random() < .6
    depth = rng.choice([6, 10, 16, 24, 40]) if deep else rng.randint(1, 3)
    wide = not deep and rng.random() < .6          # many nodes in a body
    many = not deep and not wide                   # many instances
    types = rng.sample(['SFFloat', 'SFVec3f', 'SFColor', 'MFString', 'SFBool', 'SFString', 'SFRotation', 'MFFloat', 'MFVec3f', 'SFNode', 'MFNode'],
                       rng.randint(3, 6))
    leaf = [t for t in ('PointLight', 'Transform', 'Viewpoint', 'TimeSensor', 'DirectionalLight', 'Fog', 'Switch', 'WorldInfo', 'PositionInterpolator',
                              'Shape', 'Group', 'OrientationInterpolator', 'SpotLight', 'Billboard') if any(y in types for e, y, d in gen.NODES[t].fields.values())]
    ast = gen.Scene()
    below = None
    for k in range(depth):
        p = gen.Proto('P%d' % k)
        p.body = b = gen.Scene()
        count = rng.randint(30, 60) if rng.random() < .15 else rng.randint(1, 6)
        for j in range(count):
            typ = types[j % len(types)] if j < len(types) else rng.choice(types)
            i = gen.Iface(rng.choice(['exposedField', 'exposedField', 'field']), typ, 'a%d' % j if rng.random() < .7 else 'b%d_%d' % (k, j))
            i.default = gen.gvalue(rng, typ) if 'Node' not in typ else None if typ == 'SFNode' else []
            p.iface.append(i)

        def add(n, fields, rate):
            b.nodes.append(n)
            for f, (exposed, typ) in sorted(fields.items()):
                cand = [i for i in p.iface if i.type == typ and (exposed or i.access == 'field')]
                if cand and rng.random() < rate:
                    i = rng.choice(cand)
                    n.members.append(('is', f, i.name))
                    p.maps.append((i.name, n, f))
                elif rng.random() < .3 and 'Node' not in typ and n.kind == 'inst':
                    n.values[f] = gen.gvalue(rng, typ)
                    n.members.append(('field', f))
            rng.shuffle(n.members)
            return n
        top = []
        if below is not None:
            for _ in range(1 if deep and depth > 3 or rng.random() < .5 else 2):
                top.append(add(gen.Node(below.name, 'inst', decl=below), {i.name: (i.access == 'exposedField', i.type) for i in below.iface}, .95))
        if leaf:
            for _ in range(rng.randint(40, 120) if wide and k == 0 else rng.choice([0, 1, 1, 3])):
                t = rng.choice(leaf)
                top.append(add(gen.Node(t), {f: (e, y) for f, (e, y, d) in gen.NODES[t].fields.items() if y in types}, .8))
        rng.shuffle(top)
        rest = []
        for n in top:
            # some below a node of the body
            if rng.random() < .4:
                g = gen.Node(rng.choice(['Group', 'Transform', 'Collision']))
                b.nodes.append(g)
                g.values['children'] = [n]
                g.members.append(('field', 'children'))
                n = g
            rest.append(n)
        b.items += [('node', n) for n in rest] or [('node', gen.Node('Group'))]
        order, todo = [], list(reversed(b.roots()))
        while todo:
            n = todo.pop()
            order.append(n)
            todo += reversed(n.values.get('children', []) if n.type in ('Group', 'Transform', 'Collision') else [])
        b.nodes = order
        ast.items.append(('proto', p))
        ast.protos[p.name] = p
        below = p
    for _ in range(rng.randint(30, 80) if many else rng.randint(1, 3)):
        p = below if rng.random() < .7 else rng.choice(list(ast.protos.values()))
        n = gen.Node(p.name, 'inst', decl=p)
        for i in p.iface:
            if rng.random() < .4 and 'Node' not in i.type:
                n.values[i.name] = gen.gvalue(rng, i.type)
                n.members.append(('field', i.name))
        ast.nodes.append(n)
        ast.items.append(('node', n))
    rec.count('tower_levels', depth)
    rec.count('towers_many' if many else 'towers_wide' if wide else 'towers_deep')
    return ast


def run_case(kind, index, rng, rec, ctx):
    if kind == 'tower':
        ast = tower(rng, rec)
        text = gen.Emitter(rng, 'plain').document(ast)
        behave(rng, rec, ast, lib.parse(text), text)
        if index == 1:
            rec.sample(text[:3000])
        return
    g, ast = document(rng, kind == 'nested')
    text = gen.Emitter(rng, 'plain').document(ast)
    for k, v in g.stats.items():
        rec.count('gen_' + k, v)
    sg = lib.parse(text)
    behave(rng, rec, ast, sg, text)
    if index in (2, 4):
        rec.sample(text)


def behave(rng, rec, ast, sg, text, flat=None):
    """The scene, its instances, and what changes of them do, are as declared"""
    c = gen.Compare(rec, lib, flat=flat)
    try:
        c.scene(ast, sg, 'scene')
    except gen.Mismatch as m:
        raise Violation('differs:' + m.what, m.text, text)
    w = Walk(rec, c, text)
    for r in ast.routes:
        w.flow.route(c.map[id(r.src)], r.sf, c.map[id(r.dst)], r.df)
    live = {id(n) for n in every(ast)}
    for n in list(c.asts.values()):
        if n.kind == 'inst' and id(n) in c.map:
            # those in declarations are looked at, but never changed
            w.instance(n, c.map[id(n)], live=id(n) in live)
    decls = protos(ast)
    for p in rng.sample(decls, min(len(decls), 4)):
        create(rng, rec, w, p, sg, c)
    if not w.count:
        rec.count('no_instances')
        return
    # now changes
    for n in c.asts.values():
        w.watch(n, c.map[id(n)])
    f = w.flow
    b = gen.Build(lib, rng)
    f.load()
    ports = set(w.ports)
    w.ports = [k for k in f.cells if k in ports]
    for _ in range(rng.randint(2, 10)):
        if not w.ports:
            break
        k = rng.choice(w.ports)
        o, name, typ = f.cells[k]
        fld = lib.getField(o, name)
        a, value = flow.new_value(rng, typ, b)
        event = isinstance(fld, lib.field.Event)
        if not event and 'Node' not in typ and fld.name in o.__dict__ and rng.random() < .2:
            # deleted: the default again, there and wherever it is mapped
            fld.fdel(o)
            want = fld.fget(o)
            if flow.rep(want) != flow.rep(flow.canonical(typ, fld.fget(type(o)()))):
                raise Violation('not-default', '%s is %r after it was deleted' % (f.describe(k), want), text)
            rec.count('fields_deleted')
        elif typ == 'MFNode':
            must, may = f.reach(k)
            if any(isinstance(lib.getField(*f.cells[x][:2]), lib.field.Event) for x in must | may):
                continue      # what a port holds of a list is not promised
            now = list(f.read(k))
            if now and rng.random() < .5:
                kids = f.read(k)
                if rng.random() < .5:
                    new = lib.basenodes.PointLight()
                    now.insert(0, new)
                    kids.insert(0, new)
                else:
                    i = rng.randrange(len(now))
                    if now.count(now[i]) > 1:
                        continue
                    del now[i], kids[i]
                rec.count('lists_edited')
                value = now
            else:
                setattr(o, name, value)
            want = value
        else:
            want = flow.canonical(typ, value)
            if event:
                value = want
            if name.startswith(' ') or not hasattr(type(o), name):
                fld.fset(o, value)
            else:
                setattr(o, name, value)
            if a is not None and not event and not gen.same_value(typ, a, f.read(k)):
                raise Violation('not-stored', '%s is %r, assigned %r' % (f.describe(k), f.read(k), a), text)
        bad, must = f.after(k, want)
        for what, message in bad[:1]:
            raise Violation('later-' + what + ':' + ('node' if 'Node' in typ else 'value'), message, text)
        rec.count('assignments')
        rec.count('cells_reached', len(must) - 1)
        rec.count('cells_compared', len(f.cells))
        rec.count('event_assignments' if event else 'field_assignments')
    # a new instance is as declared, whatever was done to the others
    for p in rng.sample(decls, min(len(decls), 2)):
        create(rng, rec, w, p, sg, c)
        rec.count('instances_created_after_changes')
    rec.nontrivial(text)


def every(ast):
    """Nodes of the root scene, with what is below them"""
    seen, out, todo = set(), [], list(ast.roots())
    while todo:
        n = todo.pop()
        if n is None or id(n) in seen:
            continue
        seen.add(id(n))
        out.append(n)
        for v in list(n.values.values()) + [i.default for i in n.iface]:
            todo.extend(x for x in (v if isinstance(v, list) else [v]) if isinstance(x, gen.Node))
    return out


def protos(ast):
    """PROTOs declared anywhere"""
    out = []
    for p in ast.protos.values():
        out.append(p)
        if p.body is not None:
            out += protos(p.body)
    return out


def routed(p):
    return p.body is not None and bool(p.body.routes or any(n.kind == 'inst' and routed(n.decl) for n in p.body.nodes))


def create(rng, rec, w, p, sg, c):
    """A new instance made through the API"""
    cls = w.classes.get(p.name) or sg.getProto(p.name)
    if cls is None or len([1 for q in w.names if q == p.name]) > 1:
        return
    n = gen.Node(p.name, 'inst', decl=p)
    b = gen.Build(lib, rng)
    named = {}
    for i in p.iface:
        # values given to the constructor are assignments, sent along ROUTEs in the body
        if i.is_field and not routed(p) and 'Node' not in i.type and rng.random() < .5:
            n.values[i.name] = gen.gvalue(rng, i.type)
            named[i.name] = b.value(i.type, n.values[i.name])
    o = cls(**named)
    c2 = gen.Compare(rec, lib)
    try:
        c2.node(n, o, 'new ' + p.name)
    except gen.Mismatch as m:
        raise Violation('new-instance:' + m.what, m.text, w.text)
    w.instance(n, o)
    w.keep.append((n, o))
    rec.count('instances_created')


def kinds(v):
    return [lib.protoName(x) for x in (v if isinstance(v, list) else [v])]


class Walk:
    def __init__(self, rec, c, text):
        self.rec, self.text = rec, text
        self.flow = flow.Flow()
        self.owner = {}       # id(body object) -> instance it belongs to
        self.outer = {id(o): n for n, o in ((n, c.map[id(n)]) for n in c.asts.values() if id(n) in c.map)}
        self.count = 0
        self.classes = {}
        self.names = []
        self.ports = []
        self.keep = []

    def bad(self, what, message):
        raise Violation(what, message, self.text)

    def watch(self, n, o):
        for f, typ, d in gen.Compare.fields(n):
            self.flow.watch(o, f)

    def instance(self, n, o, path='', live=True):
        p = n.decl
        if p.url is not None:
            return
        if self.classes.setdefault(p.name, type(o)) is not type(o):
            self.bad('instance-class', '%r is not an instance of %r' % (o, self.classes[p.name]))
        path = path or p.name
        body = lib.PrototypedNode.scenegraph.fget(o)
        if not isinstance(body, lib.scenegraph.SceneGraph) or body is lib.getSceneGraph(type(o)):
            self.bad('no-body', '%s: body %r' % (path, body))
        c = gen.Compare(self.rec, lib, ('noroutes', 'noprotos'))
        try:
            c.scene(p.body, body, path)
        except gen.Mismatch as m:
            self.bad('body-differs:' + m.what, m.text)
        objects = [(x, c.map[id(x)]) for x in p.body.nodes if id(x) in c.map]
        for x, q in objects:
            if id(q) in self.outer or id(q) in self.owner:
                self.bad('shared-body-node', '%s: %r of the body belongs to %r too' % (path, q, self.outer.get(id(q)) or self.owner.get(id(q))))
            self.owner[id(q)] = path
            self.keep.append(q)
        # IS
        inner = {i.name: i for i in p.iface}
        for iname, x, f in p.maps:
            if id(x) not in c.map:
                continue
            q = c.map[id(x)]
            i = inner[iname]
            self.flow.is_(o, iname, q, f, i.access)
            self.ports += [self.flow.key(o, iname), self.flow.key(q, f)] if live else []
            self.rec.count('is_mappings')
            if i.is_field:
                fld = lib.getField(q, f)
                if isinstance(fld, lib.field.Event):
                    continue
                a, b = getattr(o, iname), getattr(q, fld.name)
                if 'Node' in i.type and iname not in n.values:
                    a, b = kinds(a), kinds(b)      # which default nodes they are is not promised
                if flow.rep(a) != flow.rep(b):
                    self.bad('is-value:' + i.type, '%s: %s.%s is %r, the interface field %s has %r' % (path, x, f, b, iname, a))
                self.rec.count('is_values_compared')
        # ROUTEs of the body
        routes = [r for r in body.routes if not isinstance(r, lib.route.IS)]
        if len(routes) != len(p.body.routes):
            self.bad('body-routes', '%s: %d routes, declared %d' % (path, len(routes), len(p.body.routes)))
        for r, have in zip(p.body.routes, routes):
            if have.source is not c.map.get(id(r.src), have.source) or have.destination is not c.map.get(id(r.dst), have.destination) or (
                    have.sourceField, have.destinationField) != (r.sf, r.df):
                self.bad('body-routes', '%s: route %s instead of %s.%s TO %s.%s between the instance\'s nodes' % (path, have, r.src, r.sf, r.dst, r.df))
            a, b = self.flow.route(have.source, r.sf, have.destination, r.df)
            self.ports += [a, b] if live else []
            self.rec.count('body_routes')
        # names
        for name, x in p.body.defs.items():
            if id(x) in c.map and body.getDEF(name) is not c.map[id(x)]:
                self.bad('body-names', '%s: getDEF(%r) is %r' % (path, name, body.getDEF(name)))
        self.count += 1
        self.rec.count('instances_checked')
        self.rec.count('body_nodes_owned', len(objects))
        for x, q in objects:
            self.watch(x, q)
            if x.kind == 'inst':
                self.rec.count('nested_instances')
                self.instance(x, q, path + '/' + x.type, live)
