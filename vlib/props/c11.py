"""C11: a value assigned at the source of ROUTEs arrives everywhere they lead, and nowhere else."""
from .. import flow, gen, lib, values
from ..rec import Violation

CLEANUP_EVERY = 100
STATE = {}
SCALARS = ['SFBool', 'SFInt32', 'SFFloat', 'SFTime', 'SFString', 'MFString', 'MFInt32', 'MFFloat', 'SFColor', 'MFColor', 'SFVec2f', 'SFVec3f', 'MFVec3f', 'SFRotation', 'SFImage', 'MFTime', 'MFVec2f', 'MFRotation']
GROUPS = [['SFFloat', 'SFTime', 'SFInt32', 'SFFloat'], ['SFVec3f', 'SFColor', 'SFVec3d'], ['MFVec3f', 'MFColor', 'MFVec3d'], ['MFFloat', 'MFTime', 'MFFloat32'], ['SFString', 'MFString'],
          ['SFVec2f', 'SFVec2d'], ['SFRotation', 'SFVec4f'], ['SFBool', 'SFInt32', 'SFFloat'], ['SFVec3f', 'MFFloat', 'MFVec3f'], ['SFNode', 'MFNode']]


def plan(tier, mode):
    k = 1 if tier == 'quick' else 20
    return [('network', 2500 * k), ('mixed', 800 * k), ('document', 500 * k), ('callback', 150 * k)]


def setup(ctx):
    fields = []
    for t in sorted(values.ALL) + ['SFNode', 'MFNode']:
        cls = values.field_class(t)
        for p in 'abc':
            fields.append(cls(p + t, int(p != 'c')))
    for t in sorted(lib.field.baseEventTypes):
        fields.append(lib.field.newEvent('i' + t, t, 0))
        fields.append(lib.field.newEvent('o' + t, t, 1))
    STATE['proto'] = cls = lib.node.prototype('EveryType', fields)
    STATE['calls'] = calls = []

    class Handler(cls):
        def on_iSFFloat(self, value):
            calls.append((self, 'iSFFloat', value))

        def on_iMFString(self, value, event):
            calls.append((self, 'iMFString', value))

    STATE['handler'] = Handler


class Net:
    """Routes over some nodes, next to the flow model"""

    def __init__(self, rng, typ, size):
        self.rng, self.typ = rng, typ
        self.nodes = [(STATE['handler'] if rng.random() < .3 else STATE['proto'])(DEF='n%d' % i) for i in range(size)]
        self.flow = flow.Flow()
        self.routes = []       # [route, (a, b)]
        self.scene = lib.scenegraph.SceneGraph(children=self.nodes) if rng.random() < .5 else None
        if self.scene is not None:
            for n in self.nodes:
                self.scene.regDefName(lib.defName(n), n)
        self.ports = 'abc' if typ == 'MFNode' else 'abcio'
        self.cells = [(n, p + typ) for n in self.nodes for p in self.ports]
        for n, f in self.cells:
            self.flow.watch(n, f)
        # bystanders
        for n in self.nodes:
            for t in rng.sample(SCALARS, 2):
                self.flow.watch(n, 'a' + t)

    def name(self, f):
        """One of the names a field can be routed by"""
        if f[0] in 'ab' and self.rng.random() < .3:
            return self.rng.choice(['set_' + f, f + '_changed'])
        return f

    def add(self, a=None, b=None):
        rng = self.rng
        a, b = a or rng.choice(self.cells), b or rng.choice(self.cells)
        sf, df = self.name(a[1]), self.name(b[1])
        k = rng.randrange(5)
        if self.scene is not None and k < 4:
            args = (a[0], sf, b[0], df)
            if k == 0:
                r = self.scene.addRoute(lib.route.ROUTE(*args))
            elif k == 1:
                r = self.scene.addRoute(args)
            elif k == 2:
                r = self.scene.addRoute(*args)
            else:
                r = self.scene.addRoute((lib.defName(a[0]), sf, lib.defName(b[0]), df))
            held = False
        else:
            r = lib.route.ROUTE(source=a[0], sourceField=sf, destination=b[0], destinationField=df) if k else lib.route.ROUTE(a[0], sf, b[0], df)
            held = True
        self.routes.append([r if held else None, self.flow.route(a[0], a[1], b[0], b[1]), len(self.scene.routes) - 1 if not held else None])
        if not held and self.scene.routes[-1] is not r:
            raise Violation('route-not-added', 'addRoute returned %s, the last route is %s' % (r, self.scene.routes[-1]))

    def remove(self):
        i = self.rng.randrange(len(self.routes))
        r, (a, b), at = self.routes.pop(i)
        if r is None:
            del self.scene.routes[at]
            for x in self.routes:
                if x[2] is not None and x[2] > at:
                    x[2] -= 1
        del r
        self.flow.unroute(a, b)

    def redirect(self):
        """Another destination for a route"""
        x = self.rng.choice(self.routes)
        r = x[0] if x[0] is not None else self.scene.routes[x[2]]
        n, f = self.rng.choice(self.cells)
        r.destination = n
        r.destinationField = self.name(f)
        a, b = x[1]
        self.flow.unroute(a, b)
        x[1] = (a, self.flow.key(n, f))
        self.flow.strict[a].append(x[1][1])


class Ears:
    """Counts the signals of each cell"""

    def __init__(self):
        self.log = {}
        lib.dispatcher.connect(self.hear, signal=lib.dispatcher.Any, sender=lib.dispatcher.Any)

    def hear(self, signal=None, sender=None, value=None):
        if isinstance(signal, tuple):
            self.log.setdefault((id(sender), signal[1].name), []).append((signal[0], value))

    def close(self):
        lib.dispatcher.disconnect(self.hear, signal=lib.dispatcher.Any, sender=lib.dispatcher.Any)


def run_case(kind, index, rng, rec, ctx):
    if kind == 'document':
        return document(index, rng, rec)
    if kind == 'callback':
        return callback(index, rng, rec)
    if kind == 'mixed':
        return mixed(index, rng, rec)
    typ = rng.choice(SCALARS + ['SFNode', 'MFNode', 'MFNode'])
    big = rng.random() < .04
    net = Net(rng, typ, rng.randint(10, 18) if big else rng.randint(2, 5))
    shape = rng.choice(['random', 'chain', 'fan', 'ring', 'diamond'])
    k = rng.randint(20, 80) if big else rng.randint(2, 8)
    rec.count('large', big)
    if shape == 'random':
        for _ in range(k):
            net.add()
    else:
        cells = rng.sample(net.cells, min(k, len(net.cells)))
        if shape in ('chain', 'ring'):
            for a, b in zip(cells, cells[1:]):
                net.add(a, b)
            if shape == 'ring':
                net.add(cells[-1], cells[0])
        elif shape == 'fan':
            for b in cells[1:]:
                net.add(cells[0], b)
        else:
            for b in cells[1:-1]:
                net.add(cells[0], b)
                net.add(b, cells[-1])
    drive(rng, rec, net, typ, kind, index, shape)


def drive(rng, rec, net, typ, kind, index, shape):
    f = net.flow
    f.load()
    b = gen.Build(lib, rng)
    trail = [shape, typ]
    for step in range(rng.randint(6, 14)):
        op = rng.choice(['set', 'set', 'set', 'set', 'set', 'del', 'list', 'remove', 'redirect', 'add', 'quiet'])
        if op == 'add':
            net.add()
        elif op in ('remove', 'redirect'):
            if not net.routes:
                continue
            getattr(net, op)()
            rec.count('routes_' + op)
        if op in ('add', 'remove', 'redirect'):
            trail.append(op)
            bad = [f.describe(k) for k in f.cells if flow.rep(f.read(k)) != f.now[k]]
            rec.require(not bad, 'changed-by-' + op, '%s a route changed %r' % (op, bad), '\n'.join(trail))
            continue
        o, name = rng.choice(net.cells if rng.random() < .3 or not net.routes else [f.cells[x[1][0]][:2] for x in net.routes])
        fld = lib.getField(o, name)
        event = isinstance(fld, lib.field.Event)
        start = f.key(o, name)
        ears = Ears()
        del STATE['calls'][:]
        try:
            if op == 'set':
                a, value = flow.new_value(rng, typ, b)
                want = flow.canonical(typ, value) if typ not in values.NODE_TYPES else value
                if event:
                    value = want
                setattr(o, name, value)
            elif op == 'quiet':
                if typ == 'MFNode':
                    continue
                a, value = flow.new_value(rng, typ, b)
                want = flow.canonical(typ, value) if typ not in values.NODE_TYPES else value
                (fld.__set__ if event else fld.fset)(o, want if event else value, notify=0)
            elif op == 'del':
                if event or typ == 'MFNode' or name not in o.__dict__:
                    continue
                want = getattr(STATE['proto'](), name)
                delattr(o, name)
            else:
                if typ != 'MFNode':
                    continue
                kids = getattr(o, name)
                if kids and rng.random() < .4:
                    del kids[rng.randrange(len(kids))]
                else:
                    kids.insert(rng.randint(0, len(kids)), lib.basenodes.PointLight())
                want = list(kids)
        except Exception as exc:
            raise Violation('raises:' + op, '%s of %s: %s: %s' % (op, f.describe(start), type(exc).__name__, exc), '\n'.join(trail))
        finally:
            ears.close()
        trail.append('%s %s' % (op, f.describe(start)))
        if op == 'quiet':
            strict, f.strict = f.strict, {}
            bad, must = f.after(start, want)
            f.strict = strict
        else:
            bad, must = f.after(start, want)
        tag = 'node' if 'Node' in typ else 'value'
        for what, message in bad[:1]:
            raise Violation(what + ':' + op + ':' + tag, message, '\n'.join(trail + [str(r[1]) for r in net.routes]))
        # notifications: the destinations tell, others do not
        # (each ROUTE from the start begins a cascade, which visits each cell once)
        ways = len(f.strict.get(start, ())) if op != 'quiet' else 0
        for k in f.cells:
            heard = [s for s, v in ears.log.get(k, ()) if s in ('route', 'set')]
            port = isinstance(lib.getField(*f.cells[k][:2]), lib.field.Event)
            if k == start:
                if op == 'set' and typ != 'MFNode':
                    rec.require(heard.count('set') == 1 or port and heard.count('set') <= 1 + ways, 'start-notified', '%s sent %r' % (f.describe(k), heard), '\n'.join(trail))
            elif k in must:
                n = heard.count('route')
                rec.require(1 <= n and (n <= ways or typ == 'MFNode'), 'arrival-notified:' + tag, '%s sent %r for %d cascades' % (f.describe(k), heard, ways), '\n'.join(trail))
                rec.count('arrivals_heard')
                values_heard = [v for s, v in ears.log[k] if s == 'route']
                rec.require(flow.rep(values_heard[-1]) == f.now[k], 'arrival-value:' + tag, '%s sent the value %r and holds %r' % (f.describe(k), values_heard[-1], f.now[k]), '\n'.join(trail))
            elif typ != 'MFNode' or k[1][1:] != 'MFNode':
                rec.require(not heard, 'notified-elsewhere:' + tag, '%s sent %r' % (f.describe(k), heard), '\n'.join(trail))
        # handlers of eventIns
        for k in must:
            o2, n2, t2 = f.cells[k]
            if isinstance(o2, STATE['handler']) and n2 in ('iSFFloat', 'iMFString'):
                calls = [v for m, e, v in STATE['calls'] if m is o2 and e == n2]
                most = ways + (k == start)
                rec.require(1 <= len(calls) <= most and all(flow.rep(v) == f.now[k] for v in calls), 'handler-calls', 'on_%s called with %r' % (n2, calls), '\n'.join(trail))
                rec.count('handler_calls', len(calls))
        rec.count('op_' + op)
        rec.count('arrivals', len(must) - 1)
        rec.maximum('reach', len(must))
        rec.count('cells_compared', len(f.cells))
        if any(k in f._bfs(list(f.strict.get(k, ())), [f.strict]) for k in must):
            rec.count('events_through_cycles')
    rec.count('shape_' + shape)
    rec.nontrivial(kind, index, trail)
    if index < 3:
        rec.sample('; '.join(trail))


def mixed(index, rng, rec):
    """Chains of fields of different types: each stores, and passes on, its own form of the value"""
    group = rng.choice(GROUPS)
    big = rng.random() < .05
    nodes = [STATE['proto']() for _ in range(12 if big else rng.randint(2, 4))]
    cells = []
    free = [(n, p) for n in nodes for p in 'abc']
    rng.shuffle(free)
    for n, p in free[:rng.randint(15, 36) if big else rng.randint(2, 7)]:
        cells.append((n, p, rng.choice(group)))
    routes = []
    tree = {}
    for i in range(1, len(cells)):
        j = rng.randrange(i) if rng.random() < .4 else i - 1
        tree.setdefault(j, []).append(i)
        n, p, t = cells[j]
        m, q, u = cells[i]
        routes.append(lib.route.ROUTE(n, p + t, m, q + u))
    for _ in range(4):
        n, p, t = cells[0]
        if t == 'SFNode':
            value = rng.choice([lib.NULL, lib.basenodes.Box(), lib.basenodes.Group()])
        elif t == 'MFNode':
            value = [lib.basenodes.Box()]
        elif t.startswith('MF') and any(c[2].startswith('SF') for c in cells) and t != 'MFString':
            value = values.base(rng, 'SFVec3f')
        elif t in ('MFString', 'SFString'):
            value = rng.choice(['abc', 'x y'])
        else:
            value = values.base(rng, t)
            if 'SFInt32' in [c[2] for c in cells] and isinstance(value, float) and abs(value) > 2 ** 31:
                value = 1.5
        want = {0: coerced(t, value)}
        todo = [0]
        while todo:
            j = todo.pop()
            for i in tree.get(j, ()):
                try:
                    want[i] = coerced(cells[i][2], want[j])
                except ValueError:
                    return
                todo.append(i)
        setattr(n, p + t, value)
        for i, (m, q, u) in enumerate(cells):
            got = getattr(m, q + u)
            rec.require(flow.rep(got) == flow.rep(want[i]), 'converted:%s' % u, '%s is %r after %r was assigned to the %s at the start, expected %r' % (q + u, got, value, t, want[i]), repr([c[1:] for c in cells]))
        rec.count('conversions', len(cells) - 1)
    rec.nontrivial('mixed', index, [c[1:] for c in cells])


def coerced(typ, value):
    if typ == 'SFNode':
        return value[0] if isinstance(value, list) and len(value) == 1 else value
    if typ == 'MFNode':
        return list(value) if isinstance(value, list) else [value]
    return values.field_class(typ)('x', 1).coerce(value)


def document(index, rng, rec):
    """ROUTEs written in a document"""
    typ = rng.choice(['SFFloat', 'SFVec3f', 'SFRotation', 'SFColor', 'SFBool', 'MFVec3f'])
    where = {'SFFloat': [('ScalarInterpolator', 'set_fraction', 'value_changed'), ('Material', 'transparency', 'transparency'), ('TimeSensor', None, 'fraction_changed'), ('PointLight', 'set_intensity', 'intensity_changed')],
             'SFVec3f': [('PositionInterpolator', None, 'value_changed'), ('Transform', 'set_translation', 'translation'), ('Transform', 'scale', 'scale_changed'), ('Viewpoint', 'position', 'position')],
             'SFRotation': [('OrientationInterpolator', None, 'value_changed'), ('Transform', 'rotation', 'rotation_changed'), ('Viewpoint', 'set_orientation', 'orientation')],
             'SFColor': [('ColorInterpolator', None, 'value_changed'), ('Material', 'diffuseColor', 'set_diffuseColor'), ('Fog', 'set_color', 'color')],
             'SFBool': [('TouchSensor', 'enabled', 'isActive'), ('Viewpoint', 'set_bind', 'isBound'), ('DirectionalLight', 'on', 'on_changed')],
             'MFVec3f': [('CoordinateInterpolator', 'set_keyValue', 'value_changed'), ('Coordinate', 'point', 'point_changed'), ('Normal', 'vector', 'set_vector')]}[typ]
    big = rng.random() < .04
    n = rng.randint(10, 40) if big else rng.randint(2, 6)
    pick = [rng.choice(where) for _ in range(n)]
    body, routes = [], []
    for i, (t, a, b) in enumerate(pick):
        body.append('DEF N%d %s { }' % (i, t) if t not in ('Material', 'Coordinate', 'Normal') else
                    'Shape { %s }' % {'Material': 'appearance Appearance { material DEF N%d Material { } }', 'Coordinate': 'geometry PointSet { coord DEF N%d Coordinate { } }',
                                      'Normal': 'geometry IndexedFaceSet { normal DEF N%d Normal { } }'}[t] % i)
    for _ in range(rng.randint(15, 60) if big else rng.randint(1, 6)):
        i, j = rng.randrange(n), rng.randrange(n)
        if pick[j][1] is None:
            continue
        routes.append((i, pick[i][2], j, pick[j][1]))
    text = '#VRML V2.0 utf8\n%s\n%s\n' % ('\n'.join(body), '\n'.join('ROUTE N%d.%s TO N%d.%s' % r for r in routes))
    sg = lib.parse(text)
    f = flow.Flow()
    nodes = [sg.getDEF('N%d' % i) for i in range(n)]
    for i, (t, a, b) in enumerate(pick):
        for x in (a, b):
            if x is not None:
                f.watch(nodes[i], x)
    for i, sf, j, df in routes:
        f.route(nodes[i], sf, nodes[j], df)
    f.load()
    bld = gen.Build(lib, rng)
    for _ in range(5):
        i = rng.randrange(n)
        name = rng.choice([x for x in pick[i][1:] if x is not None])
        a, value = flow.new_value(rng, typ, bld)
        fld = lib.getField(nodes[i], name)
        if fld.typeName() != typ:
            continue
        want = flow.canonical(typ, value)
        if isinstance(fld, lib.field.Event):
            setattr(nodes[i], name, want)
        else:
            fld.__set__(nodes[i], value)
        bad, must = f.after(f.key(nodes[i], name), want)
        for what, message in bad[:1]:
            raise Violation('document-' + what, message, text)
        rec.count('document_events')
        rec.count('arrivals', len(must) - 1)
    rec.nontrivial(text)


def callback(index, rng, rec):
    """Routes to a callable"""
    nodes = [STATE['proto'](DEF='n%d' % i) for i in range(3)]
    sg = lib.scenegraph.SceneGraph(children=nodes)
    for n in nodes:
        sg.regDefName(lib.defName(n), n)
    heard = []

    def target(signal, sender, value=None):
        heard.append((signal, sender, value))

    typ = rng.choice(SCALARS)
    n = rng.choice(nodes)
    args = (rng.choice([n, lib.defName(n)]), 'a' + typ, target)
    if rng.random() < .5:
        sg.addRoute(args)
    else:
        sg.addRoute(*args)
    f = lib.getField(n, 'a' + typ)
    bld = gen.Build(lib, rng)
    for _ in range(6):
        del heard[:]
        m, g = rng.choice(nodes), rng.choice('ab') + typ
        if rng.random() < .25 and g in m.__dict__:
            delattr(m, g)
            watched = m is n and g == 'a' + typ
            rec.require([h[:2] for h in heard] == ([(('del', f), n)] if watched else []), 'callback-deletion',
                        'deleting %s of %s, the callback of %s heard %r' % (g, lib.defName(m), lib.defName(n), heard))
            rec.count('callbacks_of_deletions', int(watched))
            continue
        a, value = flow.new_value(rng, typ, bld)
        setattr(m, g, value)
        if m is n and g == 'a' + typ:
            ok = len(heard) == 1 and heard[0][0] == ('set', f) and heard[0][1] is n and heard[0][2] is getattr(n, g)
            rec.count('callbacks')
        else:
            ok = not heard
        rec.require(ok, 'callback', 'assigning %s of %s, the callback of %s heard %r' % (g, lib.defName(m), lib.defName(n), heard))
    try:
        sg.addRoute(nodes[0], 'aSFFloat', 5)
    except TypeError:
        pass
    else:
        raise Violation('callback-accepted', 'addRoute(node, field, 5) is accepted')
    rec.nontrivial('callback', index)
