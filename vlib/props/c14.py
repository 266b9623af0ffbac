"""C14: the matrix a node path gives is always the one of its nodes' present values."""
import gc
import math
import numpy as np
from .. import lib, tmath
from ..rec import Violation

CLEANUP_EVERY = 100
STATE = {}
COMBOS = [(t, s, r) for t in (True, False) for s in (True, False) for r in (True, False)]
DOC = '''#VRML V2.0 utf8
PROTO Moving [ exposedField SFVec3f a 1 2 3 exposedField SFRotation b 0 1 0 1 exposedField SFVec3f c 1 2 1 field SFVec3f d 0 0 1 eventIn SFVec3f e ] {
  Transform { translation IS a rotation IS b scale IS c center IS d set_translation IS e children DEF IN Transform { translation IS a scaleOrientation IS b } }
}
Moving { } Moving { a 3 4 5 }'''


def plan(tier, mode):
    k = 1 if tier == 'quick' else 20
    return [('history', 450 * k), ('long', 25 * k)]


def setup(ctx):
    STATE['parser'] = lib.parser()
    T = lib.basenodes.Transform
    STATE['sub'] = [type('Mover', (T,), {'PROTO': 'Transform'})]
    # node types of an application: other defaults
    types = {f: lib.getField(T, f).typeName() for f in tmath.FIELDS}
    for i, own in enumerate([dict(translation=(0, 0, 5)), dict(scale=(2, 2, 2), center=(1, 0, 0)), dict(rotation=(1, 0, 0, 1.5)), dict(scale=(1, 3, 1), scaleOrientation=(0, 0, 1, .7), translation=(1, 2, 3))]):
        cls = type('Lift%d' % i, (T,), {f: lib.field.newField(f, types[f], 1, rngless(v, i)) for f, v in own.items()})
        cls.own_defaults = own
        STATE['sub'].append(cls)
    STATE['sub'].append(type('Lower', (STATE['sub'][2],), {}))


def rngless(v, i):
    return [list(v), v, lambda: list(v), np.array(v, 'd')][i % 4]


def vec(rng, name):
    if name in ('rotation', 'scaleOrientation'):
        if rng.random() < .15:
            return (0, 1, 0, 0)
        a = rng.choice([rng.uniform(-7, 7), rng.uniform(-1, 1), math.pi, -math.pi / 2, 12.0])
        while True:
            axis = rng.choice([(1, 0, 0), (0, -1, 0), (0, 0, 1), tuple(rng.uniform(-2, 2) for _ in range(3)), (0, 3, 4)])
            if sum(c * c for c in axis) > .01:
                return axis + (a,)
    if name == 'scale':
        if rng.random() < .2:
            return (1, 1, 1)
        return tuple(rng.choice([1.0, 2.0, -1.0, rng.uniform(.3, 3), rng.uniform(-3, -.3)]) for _ in range(3))
    if rng.random() < .15:
        return (0, 0, 0)
    if rng.random() < .2:
        return tuple(rng.choice([0, 0, rng.randint(-5, 5)]) for _ in range(3))
    return tuple(rng.uniform(-20, 20) for _ in range(3))


def spelled(rng, v):
    k = rng.randrange(5)
    if k == 0:
        return list(v)
    if k == 1:
        return np.array(v, rng.choice(['d', 'f']))
    if k == 2:
        return ' '.join(repr(float(c)) for c in v)
    return v


def now(n):
    """What the node's fields hold; what is not set is its default (not read here: that would store it)"""
    own = getattr(type(n), 'own_defaults', {})
    return {f: n.__dict__[f] if f in n.__dict__ else own.get(f, tmath.IDENTITY[f]) for f in tmath.FIELDS}


def rigid(rng, f):
    """A value whose matrix keeps lengths, so that a long product stays sure"""
    if f in ('rotation', 'scaleOrientation'):
        return tuple(rng.choice([(1, 0, 0), (0, 1, 0), (0, 0, 1), (0, -2, 0), (3, 4, 0)])) + (rng.choice([.5, 1, -.5, -1]) * math.pi,)
    if f == 'scale':
        return tuple(rng.choice([1, 1, -1]) for _ in range(3))
    return tuple(rng.choice([0, rng.randint(-6, 6)]) for _ in range(3))


def run_long(rng, rec):
    """Paths of many nodes: made at once, grown node by node, cut out; then a value anywhere in them changes"""
    T = lib.basenodes.Transform
    cls = rng.choice([lib.nodepath.NodePath, lib.nodepath.WeakNodePath])
    length = rng.choice([17, 33, 50, 65, 100, 129, 200, 257, 300])
    pool = [T(**{f: spelled(rng, rigid(rng, f)) for f in tmath.FIELDS if rng.random() < (.6 if f == 'translation' else .12)}) for _ in range(rng.choice([length, length, length // 3]))]
    between = [lib.basenodes.Group(), lib.basenodes.Shape()]
    nodes = pool[:length]
    while len(nodes) < length:
        nodes.append(rng.choice(pool))
    if rng.random() < .4:
        nodes = [n if rng.random() < .8 else rng.choice(between) for n in nodes]
    how = rng.randrange(3)
    if how == 0:
        path = cls(nodes)
    elif how == 1:
        path = cls(nodes[:1])
        for n in nodes[1:]:
            path = path + n
            if rng.random() < .05:
                path.transformMatrix()
        rec.count('grown_paths')
    else:
        k = rng.randint(1, 40)
        path = cls([rng.choice(pool) for _ in range(k)] + nodes)[k:]
    trail = ['%s of %d (%d)' % (cls.__name__, length, how)]
    rec.maximum('long_path_length', length)

    def check(where):
        for flags in [(True, True, True), rng.choice(COMBOS)]:
            for inverse in (False, True):
                turns, reach = 5, 1.0
                values = [now(n) for n in nodes if isinstance(n, T)]
                want = tmath.of_path(values, flags, inverse)[0]
                for v in values:
                    turns += sum(v[f] is not tmath.IDENTITY[f] for f in ('rotation', 'scaleOrientation'))
                    reach += sum(float(np.abs(np.asarray(v[f], 'd')).sum()) * w for f, w in (('translation', 1), ('center', 4)))
                got = path.transformMatrix(translate=flags[0], scale=flags[1], rotate=flags[2], inverse=inverse)
                got = np.identity(4) if got is None else np.asarray(got, 'd')
                limit = np.full((4, 4), 2e-6 * turns)
                limit[3, :3] *= reach
                rec.count('long_matrices')
                if got.shape != (4, 4) or not np.all(np.abs(got - want) <= limit):
                    raise Violation('wrong-matrix:long', '%s: translate, scale, rotate=%r, inverse=%r of %d nodes: gives\n%s\nits nodes give\n%s' % (where, flags, inverse, len(nodes), got, want), '\n'.join(trail))
    check('at first')
    for step in range(6):
        at = rng.choice([rng.randrange(len(nodes)), 0, len(nodes) - 1])
        n = nodes[at]
        if not isinstance(n, T):
            continue
        f = rng.choice(('translation', 'translation') + tmath.FIELDS)
        if f in n.__dict__ and rng.random() < .2:
            delattr(n, f)
            trail.append('del node %d .%s' % (at, f))
        else:
            v = rigid(rng, f)
            setattr(n, f, spelled(rng, v))
            trail.append('node %d .%s = %r' % (at, f, v))
        if rng.random() < .3:
            nodes = nodes + [T(translation=(1, 2, 3))]
            path = path + nodes[-1:]
        check('after step %d' % step)
    rec.nontrivial(repr(trail))


def run_case(kind, index, rng, rec, ctx):
    if kind == 'long':
        return run_long(rng, rec)
    T, G = lib.basenodes.Transform, lib.basenodes.Group
    trail, movers, others, paths, held = [], [], [], [], []

    def new_transform():
        kw = {f: spelled(rng, vec(rng, f)) for f in tmath.FIELDS if rng.random() < .4}
        n = (rng.choice(STATE['sub']) if rng.random() < .25 else T)(**kw)
        if hasattr(n, 'own_defaults'):
            rec.count('own_defaults')
        movers.append(n)
        return n

    big = rng.random() < .05
    rec.count('large', big)
    for _ in range(rng.randint(8, 14) if big else rng.randint(2, 5)):
        new_transform()
    others.extend([G(), lib.basenodes.Shape(), lib.scenegraph.SceneGraph(), lib.basenodes.Inline()][:rng.randint(1, 4)])
    protos = []
    if rng.random() < .3:
        scene = lib.parse(DOC, STATE['parser'])
        held.append(scene)
        for inst in scene.children:
            body = lib.PrototypedNode.scenegraph.fget(inst)
            protos.append((inst, body.children[0]))
            movers.append(body.children[0])
            movers.append(body.children[0].children[0])
        rec.count('proto_bodies', len(protos))
    routes = []

    def check(path, nodes, where, combo=None, inverse=None):
        flags = combo or rng.choice(COMBOS)
        inverse = rng.random() < .5 if inverse is None else inverse
        values = [now(n) for n in nodes if isinstance(n, T)]
        want, size = tmath.of_path(values, flags, inverse)
        kw = dict(zip(('translate', 'scale', 'rotate'), flags))
        if rng.random() < .3:
            kw = {k: v for k, v in kw.items() if not v}
        got = path.transformMatrix(inverse=inverse, **kw) if rng.random() < .8 else path.transformMatrix(flags[0], flags[1], flags[2], False, inverse)
        rec.count('matrices')
        rec.count('combo_%d%d%d_%s' % (flags + ('inverse' if inverse else 'forward',)))
        rec.maximum('path_length', len(nodes))
        ok = got is not None and tmath.close(got, want, size)
        if not ok:
            fresh = type(path)(nodes).transformMatrix(inverse=inverse, **kw)
            stale = not np.array_equal(fresh, got) and tmath.close(fresh, want, size)
            raise Violation('stale-matrix' if stale else 'wrong-matrix', '%s: translate, scale, rotate=%r, inverse=%r of %d nodes: gives\n%s\nits nodes give\n%s' % (where, flags, inverse, len(nodes), got, want),
                            '\n'.join(trail) + '\n' + '\n'.join(map(repr, values)))
        return want, size, flags, inverse

    def new_path():
        pool = movers + others
        length = rng.choice([0, 1, 1, 2, 3, 4, 6]) if not big else rng.choice([2, 5, 9, 12])
        nodes = [rng.choice(movers if rng.random() < .75 else pool) for _ in range(length)]
        cls = rng.choice([lib.nodepath.NodePath, lib.nodepath.WeakNodePath])
        how = rng.randrange(5)
        if paths and how == 0:
            base, bn = rng.choice(paths)
            if len(bn) > (12 if big else 5):
                return
            nodes = bn + nodes[:2]
            if len(nodes) - len(bn) == 1 and rng.random() < .5:
                path = base + nodes[-1]
            else:
                path = base + nodes[len(bn):]
            rec.count('extended_paths')
        elif paths and how == 1:
            base, bn = rng.choice(paths)
            a, b = sorted(rng.randint(0, len(bn)) for _ in range(2))
            path, nodes = base[a:b], bn[a:b]
            rec.count('sliced_paths')
        elif len(paths) > 1 and how == 2:
            (p, pn), (q, qn) = rng.sample(paths, 2)
            path = p.common(q)
            nodes = list(path)
        else:
            path = cls(nodes)
        if not isinstance(path, (lib.nodepath.NodePath, lib.nodepath.WeakNodePath)):
            raise Violation('path-operation', 'a path operation gives a %s' % type(path).__name__, '\n'.join(trail))
        trail.append('path of %d' % len(nodes))
        paths.append((path, nodes))
        rec.count('path_' + type(path).__name__)

    for _ in range(2):
        new_path()
    before = {}
    for step in range(rng.randint(10, 30)):
        op = rng.choice(['set', 'set', 'set', 'set', 'del', 'path', 'drop', 'route', 'unroute', 'proto', 'observe', 'local', 'renotify', 'bulk', 'read'])
        n = rng.choice(movers)
        f = rng.choice(tmath.FIELDS)
        if op == 'set' or op == 'observe':
            v = spelled(rng, vec(rng, f))
            how = rng.randrange(5)
            trail.append('%d.%s = %r (%d)' % (movers.index(n), f, v, how))
            seen = []
            if op == 'observe':
                # an observer connected after the matrices were made asks for them within the notification
                live = [(p, pn) for p, pn in paths if n in pn]
                for p, pn in live:
                    for i in (False, True):
                        check(p, pn, 'before an observed change', (True, True, True), i)

                def ear(signal=None, sender=None, value=None):
                    for p, pn in live:
                        for i in (False, True):
                            check(p, pn, 'within the notification', (True, True, True), i)
                            seen.append(p)
                lib.dispatcher.connect(ear, ('set', lib.getField(n, f)), n)
            if how == 0:
                lib.getField(n, f).fset(n, v)
            elif how == 1:
                lib.getField(n, 'set_' + f).fset(n, v, 1)
            else:
                setattr(n, f, v)
            if op == 'observe':
                lib.dispatcher.disconnect(ear, ('set', lib.getField(n, f)), n)
                del ear
                rec.count('asked_within_notification', len(seen))
        elif op == 'del':
            set_ = [x for x in tmath.FIELDS if x in n.__dict__]
            if not set_:
                continue
            f = rng.choice(set_)
            trail.append('del %d.%s' % (movers.index(n), f))
            if rng.random() < .5:
                delattr(n, f)
            else:
                lib.getField(n, f).fdel(n)
        elif op == 'read':
            getattr(n, f)
            trail.append('read %d.%s' % (movers.index(n), f))
        elif op == 'renotify':
            if f not in n.__dict__:
                continue
            # in-place change, then the same array is assigned (which announces the change)
            a = n.__dict__[f]
            a[:] = np.array(vec(rng, f), a.dtype)
            setattr(n, f, a)
            trail.append('%d.%s changed in place and assigned' % (movers.index(n), f))
        elif op == 'bulk':
            for f in tmath.FIELDS:
                setattr(n, f, vec(rng, f))
        elif op == 'path':
            new_path()
        elif op == 'drop' and len(paths) > 2:
            i = rng.randrange(len(paths))
            before[id(paths[i][0])] = True
            del paths[i]
            # one of another content may well get the same address
            for _ in range(4):
                new_path()
                if id(paths[-1][0]) in before:
                    rec.count('path_ids_reused')
            while len(paths) > 6:
                del paths[rng.randrange(len(paths))]
        elif op == 'route':
            m = rng.choice(movers)
            g = rng.choice([k for k in (('translation', 'center'), ('rotation', 'scaleOrientation'), ('scale',)) if f in k][0])
            if (m is n and f == g):
                continue
            s = lib.scenegraph.SceneGraph()
            s.addRoute(n, f, m, g)
            routes.append(s)
            trail.append('ROUTE %d.%s TO %d.%s' % (movers.index(n), f, movers.index(m), g))
            rec.count('routes')
            setattr(n, f, vec(rng, f))
        elif op == 'unroute' and routes:
            del routes[rng.randrange(len(routes))]
        elif op == 'proto' and protos:
            inst, body = rng.choice(protos)
            name = rng.choice('abce')
            v = vec(rng, {'a': 'translation', 'b': 'rotation', 'c': 'scale', 'e': 'translation'}[name])
            for p, pn in paths:
                if body in pn:
                    check(p, pn, 'before a PROTO field changes')
            setattr(inst, {'a': 'a', 'b': 'b', 'c': 'c', 'e': 'e'}[name], v)
            trail.append('interface %s = %r' % (name, v))
            rec.count('interface_changes')
        elif op == 'local':
            flags = rng.choice(COMBOS)
            holder = n.localMatrices(**dict(zip(('translate', 'scale', 'rotate'), flags)))
            for i in (0, 1):
                want, size = tmath.of_path([now(n)], flags, bool(i))
                if not tmath.close(holder.data[i], want, size):
                    raise Violation('wrong-local-matrices', 'localMatrices%r[%d] gives\n%s\nfor\n%s' % (flags, i, holder.data[i], want), '\n'.join(trail))
            rec.count('local_matrices')
        if rng.random() < .1:
            gc.collect()
        which = paths if rng.random() < .3 else rng.sample(paths, min(2, len(paths)))
        for p, pn in which:
            a, size, flags, inverse = check(p, pn, 'after step %d' % step)
            if rng.random() < .3:
                b, bsize, _, _ = check(p, pn, 'after step %d' % step, flags, not inverse)
    rec.nontrivial(tuple(trail))
    rec.sample('; '.join(trail)[:1000])
    for p, pn in paths:
        for flags in COMBOS:
            for inverse in (False, True):
                check(p, pn, 'in the end', flags, inverse)
