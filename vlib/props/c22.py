"""C22: scenes know the nodes named in them and the PROTOs declared, nodes know their scene, and neither outlives its use."""
import gc
import weakref

from .. import gen, lib
from ..rec import Violation
from . import c04, c19

CLEANUP_EVERY = 60
NAMES = ['A', 'B', 'C', 'D', 'é日', 'E']
PROTOS = ['P', 'Q', 'R', 'Group']


def plan(tier, mode):
    k = 1 if tier == 'quick' else 25
    return [('history', 1800 * k), ('reclaim', 600 * k), ('large', 150 * k)]


def run_case(kind, index, rng, rec, ctx):
    if kind == 'reclaim':
        return reclaim(rng, rec)
    if kind == 'large':
        return large(rng, rec)
    gc.disable()
    try:
        History(rng, rec).run()
    finally:
        gc.enable()


class SceneModel:
    def __init__(self, root=None):
        self.names, self.protos, self.root, self.routes = {}, {}, root, []


class History:
    def __init__(self, rng, rec):
        self.rng, self.rec = rng, rec
        self.nodes, self.root = {}, {}        # serial -> node, serial of its scene or None
        self.scenes, self.models = {}, {}
        self.serial = 0
        self.trail = []
        self.classes = [self.proto(n) for n in PROTOS for _ in range(2)]

    def proto(self, name):
        return lib.node.prototype(name, [lib.field.newField('speed', 'SFFloat', 1, 1.0), lib.field.newField('inside', 'MFNode', 1, [])])

    def fail(self, what, message):
        raise Violation('differs:' + what, message, '\n'.join(self.trail))

    def new(self, **kw):
        b = lib.basenodes
        cls = self.rng.choice([b.Group, b.Group, b.Transform, b.Transform, b.Shape, b.Appearance, b.Material, b.PointLight, b.Box, b.Collision, b.Switch] + self.classes[:2])
        name = self.rng.choice(NAMES + [''] * 6)
        if name and self.rng.random() < .5:
            kw['DEF'] = name
            n = cls(**kw)
        else:
            n = cls(**kw)
            if name:
                n.DEF = name
        self.serial += 1
        self.nodes[self.serial] = n
        self.root[self.serial] = None
        self.trail.append('%d = %s %s' % (self.serial, lib.protoName(n), name))
        return self.serial

    def where(self, n):
        for k, o in self.nodes.items():
            if o is n:
                return k

    def below(self, k):
        """Serials of the nodes of a part of a graph"""
        out, todo = [], [self.nodes[k]]
        while todo:
            o = todo.pop()
            s = self.where(o)
            if s is None or s in out:
                continue
            out.append(s)
            for f in lib.getFields(o):
                if f.typeName() in ('SFNode', 'MFNode') and f.name[0] != ' ':
                    v = o.__dict__.get(f.name)
                    todo.extend(v if isinstance(v, list) else [v] if v else [])
        return out

    def above(self, k):
        return [x for x in self.nodes if k in self.below(x)]

    def adoptable(self, ks, into):
        """Would the model know what becomes of the roots and names"""
        names = []
        for k in ks:
            if self.root[k] is not None:
                continue
            for x in self.below(k):
                if self.root[x] not in (None, into):
                    return False
                names.append(lib.defName(self.nodes[x]))
        names = [n for n in set(names) if n] and names
        named = {}
        for k in ks:
            for x in self.below(k):
                n = lib.defName(self.nodes[x])
                if n:
                    named.setdefault(n, set()).add(x)
        return all(len(v) == 1 for v in named.values())

    def adopt(self, ks, into):
        if into is None:
            return
        for k in ks:
            if self.root[k] is None:
                for x in self.below(k):
                    self.root[x] = into
                    self.rec.count('adopted')
                    n = lib.defName(self.nodes[x])
                    if n:
                        self.models[into].names[n] = x
                        self.rec.count('names_adopted')

    def node_fields(self, n):
        return [f for f in lib.getFields(n) if f.typeName() in ('SFNode', 'MFNode') and f.name[0] != ' ' and f.name != 'routes']

    def run(self):
        rng, rec = self.rng, self.rec
        for _ in range(4):
            self.new()
        self.scene()
        for step in range(rng.randint(10, 28)):
            op = rng.choice(['new', 'assign', 'assign', 'assign', 'assign', 'construct', 'scene', 'regDefName', 'regDefName', 'regDefName', 'addProto', 'addProto', 'route', 'drop scene', 'remove', 'empty', 'children', 'children'])
            rec.count('op_' + op)
            getattr(self, 'op_' + op.replace(' ', '_'))()
            self.check()
        rec.nontrivial(tuple(self.trail))
        rec.sample('; '.join(self.trail)[:1200])

    def op_new(self):
        self.new()

    def targets(self, n, exclude):
        """Nodes which make no cycle below n"""
        up = set(self.above(exclude))
        return [k for k in self.nodes if k not in up]

    def assign(self, owner, into, f, ks, set_):
        vs = [self.nodes[k] for k in ks]
        if f.typeName() == 'SFNode':
            value = vs[0] if self.rng.random() < .8 else [vs[0]]
        else:
            value = self.rng.choice([list, tuple, lib.olist.OList])(vs)
            if len(vs) == 1 and self.rng.random() < .2:
                value = vs[0]
        set_(value)
        self.adopt(ks, into)

    def op_assign(self):
        rng = self.rng
        k = rng.choice(sorted(self.nodes))
        n = self.nodes[k]
        fields = self.node_fields(n)
        if not fields:
            return
        f = rng.choice(fields)
        ok = self.targets(n, k)
        ks = [rng.choice(ok) for _ in range(1 if f.typeName() == 'SFNode' else rng.randint(1, 3))] if ok else []
        if not ks or not self.adoptable(ks, self.root[k]):
            return
        self.trail.append('%d.%s = %s' % (k, f.name, ks))
        if rng.random() < .7:
            self.assign(n, self.root[k], f, ks, lambda v: setattr(n, f.name, v))
        else:
            self.assign(n, self.root[k], f, ks, lambda v: f.fset(n, v))

    def op_construct(self):
        """A node built with children"""
        rng = self.rng
        k = rng.choice(sorted(self.nodes))
        self.trail.append('Group of %d' % k)
        self.serial += 1
        self.nodes[self.serial] = lib.basenodes.Group(children=[self.nodes[k]])
        self.root[self.serial] = None

    def op_children(self):
        s = self.rng.choice(sorted(self.scenes) or [None])
        if s is None:
            return
        ks = [self.rng.choice(sorted(self.nodes)) for _ in range(self.rng.randint(1, 3))]
        if not self.adoptable(ks, s):
            return
        self.trail.append('scene %d.children = %s' % (s, ks))
        scene = self.scenes[s]
        self.assign(scene, s, lib.getField(scene, 'children'), ks, lambda v: setattr(scene, 'children', v))

    def op_empty(self):
        """NULL and empty lists are nobody's"""
        k = self.rng.choice(sorted(self.nodes))
        n = self.nodes[k]
        for f in self.node_fields(n)[:2]:
            setattr(n, f.name, self.rng.choice([None, lib.NULL]) if f.typeName() == 'SFNode' else [])

    def op_remove(self):
        k = self.rng.choice(sorted(self.nodes))
        n = self.nodes[k]
        have = [f for f in self.node_fields(n) if f.name in n.__dict__]
        if have:
            f = self.rng.choice(have)
            self.trail.append('del %d.%s' % (k, f.name))
            f.fdel(n)

    def scene(self):
        rng = self.rng
        root = rng.choice(sorted(self.scenes) + [None]) if self.scenes and rng.random() < .6 else None
        self.serial += 1
        s = self.serial
        m = self.models[s] = SceneModel(root)
        kw = {}
        if root is not None:
            kw['root'] = self.scenes[root]
        if rng.random() < .4:
            c = rng.choice(self.classes)
            m.protos[lib.protoName(c)] = c
            from vrml import protonamespace
            kw['protoTypes'] = protonamespace.ProtoNamespace({lib.protoName(c): c})
        ks = [rng.choice(sorted(self.nodes)) for _ in range(rng.randint(0, 3))] if rng.random() < .6 else []
        # (the constructor takes all of what it is given for its own)
        everything = {x for k in ks for x in self.below(k)}
        if any(self.root[x] is not None for x in everything) or not self.adoptable(ks, s):
            ks = []
        if ks or rng.random() < .3:
            kw['children'] = [self.nodes[k] for k in ks]
        named = {}
        if rng.random() < .3:
            k = rng.choice(sorted(self.nodes))
            n = lib.defName(self.nodes[k])
            if n and n not in [lib.defName(self.nodes[x]) for x in everything]:
                named[n] = k
                kw['defNames'] = {n: self.nodes[k]}
        self.trail.append('scene %d (root %s, children %s, protos %s, names %s)' % (s, root, ks, sorted(m.protos), named))
        self.scenes[s] = lib.scenegraph.SceneGraph(**kw)
        m.names.update(named)
        self.adopt(ks, s)

    def op_scene(self):
        if len(self.scenes) < 5:
            self.scene()

    def op_regDefName(self):
        if not self.scenes:
            return
        s = self.rng.choice(sorted(self.scenes))
        k = self.rng.choice(sorted(self.nodes))
        name = self.rng.choice(NAMES)
        m = self.models[s]
        old = lib.defName(self.nodes[k])
        self.trail.append('scene %d names %d %s (was %r)' % (s, k, name, old))
        self.scenes[s].regDefName(name, self.nodes[k])
        if m.names.get(old) == k:
            del m.names[old]
            self.rec.count('renamed_in_scene')
        if m.names.get(name) not in (None, k):
            self.rec.count('name_taken_over')
        m.names[name] = k
        if lib.defName(self.nodes[k]) != name or self.nodes[k].DEF != name:
            self.fail('regDefName', 'the node has the name %r' % (self.nodes[k].DEF,))

    def op_addProto(self):
        if not self.scenes:
            return
        s = self.rng.choice(sorted(self.scenes))
        c = self.rng.choice(self.classes)
        self.trail.append('scene %d has PROTO %s' % (s, lib.protoName(c)))
        self.scenes[s].addProto(c)
        self.models[s].protos[lib.protoName(c)] = c

    def op_route(self):
        rng = self.rng
        if not self.scenes:
            return
        s = rng.choice(sorted(self.scenes))
        m, scene = self.models[s], self.scenes[s]
        have = [(n, k) for n, k in sorted(m.names.items()) if 'SFVec3f' in [f.typeName() for f in lib.getFields(self.nodes[k])]]
        if not have:
            return
        (n1, k1), (n2, k2) = rng.choice(have), rng.choice(have)
        f1, f2 = [rng.choice([f.name for f in lib.getFields(self.nodes[k]) if f.typeName() == 'SFVec3f']) for k in (k1, k2)]
        if k1 == k2 and f1 == f2:
            return
        source = n1 if rng.random() < .6 else self.nodes[k1]
        value = tuple(float(rng.randint(1, 99)) for _ in range(3))
        if rng.random() < .4:
            heard = []

            def target(signal=None, sender=None, value=None):
                heard.append((signal[0], sender, None if value is None else tuple(value)))
            self.keep = target
            self.trail.append('callback route of %s.%s' % (n1, f1))
            scene.addRoute((source, f1, target)) if rng.random() < .5 else scene.addRoute(source, f1, target)
            setattr(self.nodes[k1], f1, value)
            if heard != [('set', self.nodes[k1], value)]:
                self.fail('callback-route', 'the target heard %r' % (heard,))
            delattr(self.nodes[k1], f1)
            if len(heard) != 2 or heard[1][:2] != ('del', self.nodes[k1]):
                self.fail('callback-route', 'the target heard %r' % (heard,))
            lib.getField(self.nodes[k1], f1).unwatch(self.nodes[k1], target) if hasattr(lib.field.Field, 'unwatch') else None
            self.rec.count('callback_routes')
            del scene.routes[-1]
            del heard[:]
        else:
            dest = n2 if rng.random() < .6 else self.nodes[k2]
            self.trail.append('route %s.%s TO %s.%s' % (n1, f1, n2, f2))
            spell = (source, rng.choice(['', 'set_'])[:0] + f1 + rng.choice(['', '_changed']), dest, rng.choice(['', 'set_']) + f2)
            j = rng.randrange(3)
            r = scene.addRoute(spell) if j == 0 else scene.addRoute(*spell) if j == 1 else scene.addRoute(lib.route.ROUTE(self.nodes[k1], f1, self.nodes[k2], f2))
            if not isinstance(r, lib.route.ROUTE) or r.source is not self.nodes[k1] or r.destination is not self.nodes[k2] or scene.routes[-1] is not r:
                self.fail('route', 'the route made by name is %s' % r)
            setattr(self.nodes[k1], f1, value)
            if tuple(getattr(self.nodes[k2], f2)) != value:
                self.fail('route', 'the value was not routed')
            # gone with the last reference
            back = weakref.ref(r)
            del r, scene.routes[-1]
            if back() is not None:
                gc.collect()
            if back() is not None:
                self.fail('route', 'a removed route is alive')
            setattr(self.nodes[k1], f1, (-1, -2, -3))
            if tuple(getattr(self.nodes[k2], f2)) != value:
                self.fail('route', 'a removed route forwards values')
            self.rec.count('routes')

    def op_drop_scene(self):
        if len(self.scenes) < 2 and self.rng.random() < .6 or not self.scenes:
            return
        s = self.rng.choice(sorted(self.scenes))
        self.trail.append('drop scene %d' % s)
        r = weakref.ref(self.scenes.pop(s))
        del self.models[s]
        if r() is not None:
            gc.collect()
        if r() is not None:
            self.fail('kept-alive', 'a scene is kept alive by the nodes which were in it')
        self.rec.count('scenes_dropped')
        for k, x in self.root.items():
            if x == s:
                self.root[k] = None
                self.rec.count('nodes_survived_scene')
        for m in self.models.values():
            if m.root == s:
                m.root = None
                self.rec.count('scenes_survived_root')

    def check(self):
        for k, n in self.nodes.items():
            got, want = lib.root(n), self.root[k]
            self.rec.count('roots_checked')
            if want is None:
                if got:
                    self.fail('root', 'node %d in no scene has the root %r' % (k, [s for s, o in self.scenes.items() if o is got]))
            elif got is not self.scenes[want]:
                self.fail('root', 'node %d of scene %d has the root %r' % (k, want, [s for s, o in self.scenes.items() if o is got] or got))
        for s, scene in self.scenes.items():
            m = self.models[s]
            if lib.root(scene) is not scene:
                self.fail('root', 'the root of a scene is %r' % (lib.root(scene),))
            for name in NAMES + ['never']:
                got, want = scene.getDEF(name), m.names.get(name)
                self.rec.count('names_checked')
                if (got is not None) != (want is not None) or want is not None and got is not self.nodes[want]:
                    self.fail('getDEF', 'scene %d: %r is %s, not %s' % (s, name, got if got is None else self.where(got), want))
            for name in PROTOS + ['never']:
                x, want = s, None
                depth = 0
                while x is not None and want is None:
                    want = self.models[x].protos.get(name)
                    x = self.models[x].root
                    depth += want is None
                got = scene.getProto(name)
                self.rec.count('protos_checked')
                if want is not None and depth:
                    self.rec.count('protos_found_in_root_%d' % min(depth, 2))
                if got is not want:
                    self.fail('getProto', 'scene %d: PROTO %s is %r, not %r' % (s, name, got, want))


def reclaim(rng, rec):
    """What is not referred to any more is collected: scenes, nodes, PROTOs and routes"""
    g, ast = c04.document(rng)
    text = gen.Emitter(rng, 'plain').document(ast)
    lib.parse('#VRML V2.0 utf8\n')
    gc.collect()
    d = lib.dispatcher
    before = (len(d.connections), len(d.senders), len(d.sendersBack), len(lib.cache.CACHE), len(list(lib.node.ISMAPS.data)))
    scene = lib.parse(text)
    objs = c19.walk(scene)
    classes = [type(o) for o in objs if not lib.builtin(type(o))]
    bld = gen.Build(lib, rng)
    did = set()
    for _ in range(rng.randint(0, 6)):
        k = rng.randrange(6)
        o = rng.choice(objs)
        did.add(k)
        if k == 0:
            copy = scene.copy()
            del copy
        elif k == 1:
            scene.toString()
        elif k == 2 and isinstance(o, lib.basenodes.Transform):
            path = lib.nodepath.NodePath([scene, o])
            path.transformMatrix()
            path.transformMatrix(inverse=True)
            (path + lib.basenodes.Transform()).transformMatrix()
            del path
        elif k == 3:
            h = lib.cache.CACHE.holder(o, 'data', 'k')
            h.depend(rng.choice(objs), rng.choice(['DEF']))
            del h
        elif k == 4:
            for f in lib.getFields(o):
                getattr(o, f.name, None)
        elif k == 5 and not isinstance(o, lib.route.ROUTE):
            fs = [f for f in lib.getFields(o) if f.typeName() in ('SFFloat', 'SFVec3f', 'SFString') and f.name[0] != ' ']
            if fs:
                f = rng.choice(fs)
                try:
                    setattr(o, f.name, {'SFFloat': 1, 'SFVec3f': (1, 2, 3), 'SFString': 'x'}[f.typeName()])
                except (ValueError, TypeError):
                    pass
    del bld
    refs = [(weakref.ref(o), lib.protoName(o)) for o in objs] + [(weakref.ref(c), 'PROTO ' + lib.protoName(c)) for c in set(classes)]
    keep = None
    if rng.random() < .4:
        # one node is kept, with all it refers to, and nothing else
        keep = rng.choice(objs)
        alive = {id(o) for o in c19.walk(keep)} | {id(type(o)) for o in c19.walk(keep)}
    scene = o = f = fs = objs = classes = g = ast = None
    lib.parse('#VRML V2.0 utf8\n')       # (the parser keeps what it used last)
    for _ in range(6):
        gc.collect()                          # some are only let go of by what was collected
    if keep is None:
        for r, name in refs:
            if r() is not None:
                raise Violation('not-collected', 'after the scene is dropped a %s is alive' % name, text)
        rec.count('objects_collected', len(refs))
        rec.count('protos_collected', sum(name.startswith('PROTO ') for _, name in refs))
        after = (len(d.connections), len(d.senders), len(d.sendersBack), len(lib.cache.CACHE), len(list(lib.node.ISMAPS.data)))
        if any(a > b for a, b in zip(after, before)):
            raise Violation('tables-grow', 'the tables of connections, senders, back references, cached data and IS maps had %s entries and have %s' % (before, after), text)
        rec.count('tables_compared')
    else:
        scene = isinstance(keep, lib.scenegraph.SceneGraph)
        for r, name in refs:
            o = r()
            if o is not None and id(o) not in alive and not isinstance(o, type) and not scene and not isinstance(keep, lib.PrototypedNode) and not of_class(keep):
                raise Violation('not-collected', 'one %s is kept, which does not refer to a %s, but it is alive' % (lib.protoName(keep), name), text)
        rec.count('kept_one')
    rec.nontrivial(text)


def large(rng, rec):
    """Large and deep scenes, with many names, below many others"""
    b = lib.basenodes
    SG = lib.scenegraph.SceneGraph
    scenes, owner, protos = [], {}, []
    for i in range(rng.choice([1, 2, 4, 12, 30])):
        scenes.append(SG(root=scenes[-1]) if scenes else SG())
        c = lib.node.prototype('P%d' % rng.randint(0, i + 3), [])
        protos.append(c)
        scenes[-1].addProto(c)
    d = lib.dispatcher
    shape = rng.choice(['deep', 'wide', 'bushy', 'single'])
    names = {}                 # (scene, name) -> node
    nodes = []
    for _ in range(rng.randint(1, 3)):
        # a part made by itself, and then put into a scene
        size = rng.choice([30, 70, 120]) if shape in ('deep', 'single') else rng.choice([40, 130, 400])
        part = [b.Group()]
        for j in range(size):
            up = part[-1] if shape in ('deep', 'single') else part[0] if shape == 'wide' else rng.choice(part)
            n = rng.choice([b.Group, b.Transform, b.Anchor, b.Collision])()
            if rng.random() < .5:
                n.DEF = 'N%d' % (len(nodes) + len(part)) if rng.random() < .9 else 'é%d' % (len(nodes) + len(part))
            if shape == 'single' and type(up) is b.Collision:
                up.proxy = n
            elif shape == 'single' or rng.random() < .3 or 'children' not in up.__dict__:
                up.children = list(up.children) + [n]
            else:
                up.children.append(n)
            part.append(n)
        if rng.random() < .5:
            rng.shuffle(part[0].children)
        k = rng.randrange(len(scenes))
        scene = scenes[k]
        first = scene.children[0] if scene.children and rng.random() < .5 else None
        if first is not None:
            first.children = list(first.children) + [part[0]]
            rec.count('parts_put_below_nodes')
        else:
            scene.children = list(scene.children) + [part[0]]
        for n in part:
            owner[id(n)] = k
            if n.DEF:
                names[k, n.DEF] = n
        nodes += part
        rec.count('large_parts')
        rec.count('large_nodes', len(part))

    def check(after):
        for n in nodes:
            got = lib.root(n)
            rec.require(got is scenes[owner[id(n)]], 'root:large', lambda: 'after %s: %r of a %s part has the root of scene %s, not %d' % (after, n.DEF, shape, [i for i, x in enumerate(scenes) if x is got], owner[id(n)]))
        for k, sc in enumerate(scenes):
            for name in {n for _, n in names}:
                got, want = sc.getDEF(name), names.get((k, name))
                rec.require(got is want, 'getDEF:large', lambda: 'after %s: scene %d gives %r for %s, not %r' % (after, k, got, name, want))
            for name in {lib.protoName(c) for c in protos}:
                want = [c for c in protos[:k + 1] if lib.protoName(c) == name][-1:]
                got = sc.getProto(name)
                rec.require([got] == (want or [None]), 'getProto:large', lambda: 'scene %d of a chain gives %r for %s, not %r' % (k, got, name, want))
        rec.count('large_checks')
    check('assignment')
    for _ in range(rng.randint(3, 40)):
        n = rng.choice(nodes)
        k = owner[id(n)]
        new = rng.choice(['N%d' % rng.randint(1, 2 * len(nodes)), 'M%d' % rng.randint(1, 9)])
        old = n.DEF
        scenes[k].regDefName(new, n)
        if old and names.get((k, old)) is n:
            del names[k, old]
        names[k, new] = n
        rec.count('large_renamed')
    check('renaming')
    # nodes in a scene keep it when they are given to another
    if len(scenes) > 1:
        k = rng.randrange(len(scenes))
        moved = rng.sample(nodes, min(5, len(nodes)))
        scenes[k].children = list(scenes[k].children) + moved
        rec.count('large_moved')
        check('giving some to another scene')
    refs = [weakref.ref(n) for n in nodes] + [weakref.ref(x) for x in scenes]
    n = up = part = first = moved = scene = None
    if rng.random() < .5:
        # an inner node goes with all below it
        while nodes:
            nodes.pop()
    names.clear()
    del nodes[:]
    del scenes[:]
    gc.collect()
    gc.collect()
    alive = [r() for r in refs if r() is not None]
    rec.require(not alive, 'kept-alive:large', lambda: '%d of %d are alive after all was dropped' % (len(alive), len(refs)))
    rec.count('large_collected', len(refs))
    rec.nontrivial(shape, len(refs), rng.random())


def of_class(keep):
    """Does anything below refer to a PROTO (whose body and defaults live with it)"""
    return any(not lib.builtin(type(o)) or lib.protoName(o) == 'Script' for o in c19.walk(keep))
