"""C19: a copy is equal to the original, structure and routes included, and independent of it."""
from copy import deepcopy
import numpy as np
from .. import flow, gen, lib, values
from ..rec import Violation
from . import c04, c05

CLEANUP_EVERY = 60


def plan(tier, mode):
    k = 1 if tier == 'quick' else 20
    return [('scene', 240 * k), ('node', 200 * k), ('built', 160 * k), ('copier', 120 * k), ('types', 250 * k)]


class Differs(Exception):
    pass


def stored_nodes(v):
    return isinstance(v, lib.Node) and not isinstance(v, lib.NullNode)


class Iso:
    """Follows two structures side by side; .map is original -> copy"""

    def __init__(self, rec, shared_ok=False):
        self.rec = rec
        self.map, self.back, self.pairs, self.keep = {}, {}, [], []

    def nodes(self, a, b, where):
        self.todo = [(a, b, where)]
        while self.todo:
            self.node(*self.todo.pop())

    def node(self, a, b, where):
        if id(a) in self.map:
            if self.map[id(a)] is not b:
                raise Differs('sharing', '%s: one node of the original has two copies' % where)
            return
        if not isinstance(b, lib.Node) or type(a) is not type(b):
            raise Differs('type', '%s: the copy of a %s is a %s' % (where, type(a), type(b)))
        if a is b:
            raise Differs('not-copied', '%s: the %s of the original is in the copy' % (where, lib.protoName(a)))
        if id(b) in self.back:
            raise Differs('sharing', '%s: two nodes of the original have one copy' % where)
        self.map[id(a)], self.back[id(b)] = b, a
        self.keep.append((a, b))
        self.pairs.append((a, b, where))
        self.rec.count('nodes_compared')
        if isinstance(a, lib.route.ROUTE):
            self.rec.count('routes_compared')
            if (a.sourceField, a.destinationField) != (b.sourceField, b.destinationField):
                raise Differs('route', '%s: fields %s, %s' % (where, (a.sourceField, a.destinationField), (b.sourceField, b.destinationField)))
            self.todo.append((a.source, b.source, where + '.source'))
            self.todo.append((a.destination, b.destination, where + '.destination'))
            return
        if lib.defName(a) != lib.defName(b):
            raise Differs('def-name', '%s: DEF %r copied as %r' % (where, lib.defName(a), lib.defName(b)))
        for f in lib.getFields(a):
            if f.name.startswith(' ') and f.name != ' scenegraph':
                continue
            if f.name == 'externalURL':
                continue
            if f.typeName() in ('SFNode', 'MFNode') and not f.fhas(a) and not f.fhas(b):
                continue        # the default of the class, for both
            self.value(f, f.fget(a), f.fget(b), '%s.%s' % (where, f.name.strip()))
        for f in lib.getFields(a, 1):
            if (f.name in a.__dict__) != (f.name in b.__dict__):
                raise Differs('event-port', '%s.%s is stored in one of the two only' % (where, f.name))
            if f.name in a.__dict__:
                self.value(f, a.__dict__[f.name], b.__dict__[f.name], '%s.%s' % (where, f.name))
        if isinstance(a, lib.scenegraph.SceneGraph):
            x = {k: v for k, v in a.defNames.items() if k and v is not None}
            y = {k: v for k, v in b.defNames.items() if k and v is not None}
            if x.keys() != y.keys():
                raise Differs('def-names', '%s: names %s, copied as %s' % (where, sorted(x), sorted(y)))
            self.rec.count('def_names', len(x))
            for k in x:
                self.todo.append((x[k], y[k], '%s DEF %s' % (where, k)))
            if dict(a.protoTypes) != dict(b.protoTypes):
                raise Differs('protos', '%s: PROTOs %s, copied as %s' % (where, sorted(a.protoTypes), sorted(b.protoTypes)))
            known, scene = set(a.protoTypes), a
            while scene is not None:
                known |= set(scene.protoTypes)
                scene = getattr(scene, "root", None) and scene.root()
            for k in known:
                if a.getProto(k) is not b.getProto(k):
                    raise Differs('protos', '%s: PROTO %s is %r, of the copy %r' % (where, k, a.getProto(k), b.getProto(k)))
            self.rec.count('outer_protos_found', len(known) - len(a.protoTypes))
            if a.defNames is b.defNames or a.protoTypes is b.protoTypes:
                raise Differs('not-copied', '%s: the name tables are shared' % where)

    def value(self, f, x, y, where):
        self.rec.count('values_compared')
        if stored_nodes(x):
            if not stored_nodes(y):
                raise Differs('value', '%s: a %s is copied as %r' % (where, lib.protoName(x), y))
            self.todo.append((x, y, where))
        elif isinstance(x, list) and x and isinstance(x[0], (lib.Node, lib.route.ROUTE)):
            if type(x) is not type(y) or len(x) != len(y):
                raise Differs('list', '%s: %s of %d copied as %s of %s' % (where, type(x).__name__, len(x), type(y).__name__, len(y) if isinstance(y, list) else '?'))
            if x is y:
                raise Differs('not-copied', '%s: the copy has the list of the original' % where)
            for i, (p, q) in enumerate(zip(x, y)):
                if stored_nodes(p):
                    self.todo.append((p, q, '%s[%d]' % (where, i)))
                elif p is not q:
                    raise Differs('value', '%s[%d]: %r copied as %r' % (where, i, p, q))
        else:
            if type(x) is not type(y) or flow.rep(x) != flow.rep(y):
                raise Differs('value', '%s: %r copied as %r' % (where, x, y))
            if x is y and isinstance(x, (list, np.ndarray)):
                raise Differs('not-copied', '%s: the copy has the %s of the original' % (where, type(x).__name__))
            if isinstance(x, np.ndarray) and np.may_share_memory(x, y):
                raise Differs('not-copied', '%s: the arrays of the copy and the original share memory' % where)


class Log:
    """Signals from nodes, in terms of the original's nodes"""

    def __init__(self):
        self.heard = []
        lib.dispatcher.connect(self.hear)

    def hear(self, signal=None, sender=None, **named):
        if isinstance(signal, tuple) and isinstance(sender, lib.Node):
            self.heard.append((str(signal[0]), getattr(signal[1], 'name', signal[1]), sender))

    def take(self):
        h, self.heard = self.heard, []
        return h

    def close(self):
        lib.dispatcher.disconnect(self.hear)


def types_case(rng, rec):
    """Nodes of prototypes with fields of every type"""
    known = []
    fields = []
    for i in range(rng.randint(2, 9)):
        typ = rng.choice(sorted(values.ALL) + ['MFNode', 'SFNode'])
        fields.append(values.field_class(typ)('f%d' % i, rng.randint(0, 1)))
        known.append(('f%d' % i, typ))
    if rng.random() < .4:
        typ = rng.choice(['SFFloat', 'MFVec3f', 'MFString', 'SFColor', 'MFInt32'])
        fields.append(lib.field.newEvent('e', typ))
        known.append(('e', typ))
    cls = lib.node.prototype('Typed', fields)
    nodes = [cls() for _ in range(rng.randint(1, 4))]
    bld = gen.Build(lib, rng)
    data = []

    def put(o, name, typ, nodes):
        if typ == 'SFNode':
            v = rng.choice(nodes + [lib.basenodes.Box(), lib.NULL])
        elif typ == 'MFNode':
            v = [rng.choice(nodes + [lib.basenodes.Box(), lib.basenodes.Group()]) for _ in range(rng.randint(0, 3))]
        else:
            v = values.spelling(rng, typ, values.base(rng, typ))[1]
        setattr(o, name, v)
        data.append('%s %s' % (typ, name))

    for o in nodes:
        for name, typ in known:
            if name != 'e' and rng.random() < .7:
                put(o, name, typ, nodes)
    original = nodes[0]
    before = c05.snapshot(original)
    copy = original.copy()
    text = '; '.join(data)
    if before != c05.snapshot(original):
        raise Violation('copying-changes', 'copying changes the original: %s' % (c05.diff(before, c05.snapshot(original)),), text)
    iso = Iso(rec)
    match(iso, original, copy, text, 'right after copying')
    shared(iso, original, copy, text)
    for step in range(rng.randint(3, 10)):
        one, two = (original, copy) if rng.random() < .5 else (copy, original)
        start = rng.choice(iso.pairs)
        target = start[0] if one is original else start[1]
        if type(target) is not cls:
            continue
        before = c05.snapshot(two)
        name, typ = rng.choice(known)
        held = target.__dict__.get(name)
        how = 'assigning'
        if isinstance(held, np.ndarray) and held.size and held.flags.writeable and rng.random() < .6:
            held[...] = 2
            how = 'changing in place'
        elif isinstance(held, list) and rng.random() < .6:
            how = 'changing in place'
            if typ == 'MFNode':
                getattr(target, name).append(lib.basenodes.Group())
            elif held and isinstance(held[0], list):
                held[0].append('more')
            else:
                held.append('more' if typ == 'MFString' else 1)
        else:
            put(target, name, typ, [lib.basenodes.Shape()])
        rec.count('typed_changes')
        if before != c05.snapshot(two):
            raise Violation('not-independent', '%s %s %s of one changes the other: %s' % (how, typ, name, c05.diff(before, c05.snapshot(two))), text)
    rec.nontrivial(text)


def run_case(kind, index, rng, rec, ctx):
    if kind == 'types':
        return types_case(rng, rec)
    if kind == 'built':
        g, ast = c04.document(rng, protos=False, scripts=False)
        text = gen.Emitter(rng, 'plain').document(ast)
        original = gen.Build(lib, rng).scene(ast)
    else:
        g, ast = c04.document(rng)
        text = gen.Emitter(rng, 'plain').document(ast)
        original = lib.parse(text)
    scene = original
    if rng.random() < .3:
        # nodes the scene knows by name only
        b = lib.basenodes
        for i in range(rng.randint(1, 3)):
            n = rng.choice([lambda: b.Transform(children=[b.Group()]), b.Material, lambda: b.Group(children=list(scene.children[:1])), b.Box])()
            scene.regDefName('Spare%d' % i, n)
            rec.count('named_outside_the_tree')
            if rng.random() < .4 and isinstance(n, b.Transform):
                m = b.Transform()
                scene.regDefName('SpareEnd', m)
                scene.addRoute('Spare%d' % i, 'translation', 'SpareEnd', 'translation')
                rec.count('routed_outside_the_tree')
    if rng.random() < .1:
        # no node at some place of a list
        holders = [n for n in walk(scene) if 'children' in n.__dict__ and isinstance(n.__dict__['children'], list)]
        for n in rng.sample(holders, min(3, len(holders))):
            list.insert(n.children, rng.randint(0, len(n.children)), lib.NULL)     # heard by nobody
            rec.count('nulls_in_lists')
    log = Log()
    try:
        if kind == 'copier':
            copier_case(rng, rec, scene, text, log)
            return
        if kind == 'node':
            nodes = [n for n in walk(scene) if not isinstance(n, (lib.scenegraph.SceneGraph, lib.route.ROUTE))]
            if not nodes:
                return
            original = rng.choice(nodes[:5] + nodes)
            rec.count('nodes_copied_alone')
        before = c05.snapshot(scene)
        log.take()
        copy = original.copy()
        if rng.random() < .2:
            copy = copy.copy()
            rec.count('copies_of_copies')
        # the ROUTEs of the copy are being made, nothing else has news
        heard = [h for h in log.take() if not isinstance(h[2], lib.route.ROUTE) or id(h[2]) in before]
        if heard:
            raise Violation('copying-sends', 'copying sent %s' % [(h[0], h[1]) for h in heard[:5]], text)
        after = c05.snapshot(scene)
        if before != after:
            raise Violation('copying-changes', 'copying changes the original: %s' % (c05.diff(before, after),), text)
        iso = Iso(rec)
        match(iso, original, copy, text, 'right after copying')
        shared(iso, scene if kind == 'node' else original, copy, text)
        roots(iso, text)
        edits(rng, rec, iso, original, copy, scene, text, log, kind)
        rec.nontrivial(text)
        rec.sample(text)
    finally:
        log.close()


def match(iso, a, b, text, when):
    try:
        iso.nodes(a, b, 'copy')
    except Differs as d:
        raise Violation('copy-differs:' + d.args[0], '%s: %s' % (when, d.args[1]), text)


def walk(root):
    """Every node of a structure, PROTO bodies of instances and routes included"""
    seen, out, todo = set(), [], [root]
    while todo:
        o = todo.pop()
        if not stored_nodes(o) or id(o) in seen:
            continue
        seen.add(id(o))
        out.append(o)
        for f in lib.getFields(o):
            if f.name.startswith(' ') and f.name != ' scenegraph':
                continue
            v = o.__dict__.get(f.name)
            if isinstance(v, list):
                todo.extend(v)
            else:
                todo.append(v)
        if isinstance(o, lib.route.ROUTE):
            todo.extend([o.source, o.destination])
        if isinstance(o, lib.scenegraph.SceneGraph):
            todo.extend(o.defNames.values())
    return out


def shared(iso, original, copy, text):
    mine = {id(o) for o in walk(original)}
    for o in walk(copy):
        if id(o) in mine:
            raise Violation('copy-differs:not-copied', 'a %s of the original is part of the copy' % lib.protoName(o), text)
        iso.rec.count('objects_checked_for_sharing')


def roots(iso, text):
    """Copied nodes belong to the copied scene"""
    for a, b, where in iso.pairs:
        ra, rb = lib.root(a), lib.root(b)
        if ra is not None and id(ra) in iso.map:
            iso.rec.count('roots')
            if rb is not iso.map[id(ra)]:
                raise Violation('copy-differs:root', '%s: the copied node belongs to %r' % (where, rb), text)


def edits(rng, rec, iso, original, copy, scene, text, log, kind):
    bld = gen.Build(lib, rng)
    trail = []
    for step in range(rng.randint(4, 14) if len(iso.pairs) < 250 else 2):
        pairs = [p for p in iso.pairs if not isinstance(p[0], lib.route.ROUTE)]
        sources = {id(r[0].source) for r in iso.pairs if isinstance(r[0], lib.route.ROUTE)}
        routed = [p for p in pairs if id(p[0]) in sources]
        a, b, where = rng.choice(routed if routed and rng.random() < .5 else pairs)
        first_copy = rng.random() < .5
        edit = choose(rng, rec, a, b, bld)
        if edit is None:
            continue
        label, do = edit
        trail.append('%s: %s' % (where, label))
        data = '\n'.join(trail) + '\n=== ' + text
        one, two = (b, a) if first_copy else (a, b)
        watched = (scene if kind == 'node' else original) if first_copy else copy
        # (nodes of a copied part name the scene of the original as their root: names given there are registered there)
        before = c05.snapshot(watched, kind != 'node')
        log.take()
        outcome = []
        for o in (one, two):
            try:
                do(o, o is b)
                outcome.append(None)
            except Exception as exc:
                outcome.append(type(exc).__name__)
            if o is one:
                now = c05.snapshot(watched, kind != 'node')
                if now != before:
                    raise Violation('not-independent', '%s of the %s changes the %s: %s' % (label, 'copy' if first_copy else 'original', 'original' if first_copy else 'copy', c05.diff(before, now)), data)
                first = log.take()
        second = log.take()
        rec.count('edits')
        rec.count('edit_' + label.split(' ')[0])
        if outcome[0] != outcome[1] and not (kind == 'node' and any(isinstance(o, lib.route.ROUTE) for o in walk(scene))):
            raise Violation('behaves-differently', '%s: outcome %s' % (label, outcome), data)
        if kind == 'node':
            # routes of the scene do not come along
            continue
        if not first_copy:
            first, second = second, first
        x = sorted({(h[0], h[1], id(iso.back.get(id(h[2]), h[2]))) for h in first})        # from the copy
        y = sorted({(h[0], h[1], id(h[2])) for h in second})
        rec.count('events_compared', len(x))
        known = set(iso.map)
        x, y = [e for e in x if e[2] in known], [e for e in y if e[2] in known]
        if x != y:
            raise Violation('behaves-differently', '%s: the original sends %s, the copy %s' % (label, [e[:2] for e in y], [e[:2] for e in x]), data)
        again = Iso(rec)
        match(again, original, copy, data, 'after %s of both' % label)
        rec.count('rematched')
        iso.map, iso.back, iso.pairs = again.map, again.back, again.pairs
        iso.keep.extend(again.keep)


def choose(rng, rec, a, b, bld):
    """An edit to be made to the original's and to the copy's node: (label, function(node, is_copy))"""
    fields = [f for f in lib.getFields(a) if not f.name.startswith(' ') and f.name not in ('externalURL', 'routes')]
    events = [f for f in lib.getFields(a, 1) if f.typeName() not in ('SFNode', 'MFNode')]
    k = rng.randrange(9)
    if isinstance(a, lib.scenegraph.SceneGraph) and rng.random() < .5:
        k = 9
    if k == 9:
        j = rng.randrange(4)
        if j == 0:
            p = lib.node.prototype('Added', [])
            return 'addProto', lambda o, c: o.addProto(p)
        if j == 1:
            return 'regDefName', lambda o, c: o.regDefName('Fresh', lib.basenodes.Group())
        if j == 2 and len(a.routes):
            i = rng.randrange(len(a.routes))
            return 'del-route', lambda o, c: o.routes.__delitem__(i)
        return 'baseURI', lambda o, c: setattr(o, 'baseURI', 'http://x/')
    if k in (0, 1, 2, 3) and fields:
        f = rng.choice(fields)
        if f.typeName() in ('SFNode', 'MFNode'):
            t = rng.choice([lib.basenodes.Box, lib.basenodes.Group, lib.basenodes.Material])
            made = {True: t(), False: t()}
            if f.typeName() == 'SFNode':
                return 'assign %s' % f.name, lambda o, c: setattr(o, f.name, made[c])
            return 'assign %s' % f.name, lambda o, c: setattr(o, f.name, [made[c]])
        v = flow.new_value(rng, f.typeName(), bld)[1]
        return 'assign %s' % f.name, lambda o, c: setattr(o, f.name, deepcopy(v))
    if k == 4 and events:
        f = rng.choice(events)
        v = flow.new_value(rng, f.typeName(), bld)[1]
        return 'event %s' % f.name, lambda o, c: setattr(o, f.name, deepcopy(v))
    if k == 5:
        arrays = [f for f in fields if isinstance(a.__dict__.get(f.name), np.ndarray) and a.__dict__[f.name].size and f.name in b.__dict__]
        if arrays:
            f = rng.choice(arrays)
            return 'in-place %s' % f.name, lambda o, c: o.__dict__[f.name].__setitem__(Ellipsis, 3)
    if k == 6:
        lists = [f for f in fields if f.typeName() in ('MFNode', 'MFString') and (f.fhas(a) and f.fhas(b) or not f.getDefault())]
        if lists:
            f = rng.choice(lists)
            j = rng.randrange(3)
            made = {c: 'x' if f.typeName() == 'MFString' else lib.basenodes.Group() for c in (True, False)}
            if j == 0:
                return 'append %s' % f.name, lambda o, c: getattr(o, f.name).append(made[c])
            if j == 1:
                return 'pop %s' % f.name, lambda o, c: getattr(o, f.name).pop()
            return 'slice %s' % f.name, lambda o, c: getattr(o, f.name).__setitem__(slice(0, 2), [made[c]])
    if k == 7:
        have = [f for f in fields if f.name in a.__dict__ and f.name in b.__dict__ and f.typeName() not in ('SFNode', 'MFNode')]
        if have:
            f = rng.choice(have)
            return 'delete %s' % f.name, lambda o, c: delattr(o, f.name)
    if k == 8 and not isinstance(a, lib.scenegraph.SceneGraph):
        return 'name', lambda o, c: lib.defName(o, 'Renamed')
    return None


def copier_case(rng, rec, scene, text, log):
    """Several nodes copied with one copier share what they shared"""
    nodes = [n for n in walk(scene) if not isinstance(n, (lib.scenegraph.SceneGraph, lib.route.ROUTE))]
    if len(nodes) < 2:
        return
    picked = [rng.choice(nodes) for _ in range(rng.randint(2, 5))]
    c = lib.copier.Copier()
    log.take()
    copies = [n.copy(c) for n in picked]
    if [h for h in log.take() if not isinstance(h[2], lib.route.ROUTE)]:
        raise Violation('copying-sends', 'copying with a copier sends signals', text)
    iso = Iso(rec)
    for n, m in zip(picked, copies):
        match(iso, n, m, text, 'copied with one copier')
    for n, m in zip(picked, copies):
        if n.copy(c) is not m:
            raise Violation('copy-differs:sharing', 'copied again with the same copier a node has another copy', text)
    rec.count('copier_nodes', len(picked))
    rec.nontrivial(text, tuple(nodes.index(n) for n in picked))
