"""C16: the same program does the same with and without the accelerator modules."""
import gc
import json
import random
import re
import numpy as np
from .. import flow, gen, lib, values
from ..rec import Violation
from . import c04, c15

CLEANUP_EVERY = 100
STATE = {}
TYPES = sorted(values.ALL)


def plan(tier, mode):
    k = 1 if tier == 'quick' else 25
    return [('fields', 1200 * k), ('plain', 1000 * k), ('nodes', 1200 * k), ('document', 200 * k), ('matrices', 4000 * k)]


def setup(ctx):
    from .. import twin
    STATE['twin'] = twin.Twin('vlib.props.c16')


def finish(rec, ctx):
    STATE['twin'].close()


def run_case(kind, index, rng, rec, ctx):
    seed = rng.getrandbits(62)
    STATE['twin'].send(kind, seed)
    try:
        mine = json.loads(json.dumps(trace(kind, seed)))
    finally:
        other = STATE['twin'].receive()
    rec.count('entries', len(mine))
    rec.count('entries_' + kind, len(mine))
    for e in mine:
        rec.count('did_' + str(e[0]))
        if e[-1] and isinstance(e[-1], list) and e[-1][0] == 'raised':
            rec.count('raised_in_both')
    rec.nontrivial(repr(mine))
    rec.sample(json.dumps(mine)[:1200])
    for n, (a, b) in enumerate(zip(mine, other)):
        if not same(a, b):
            if all(any(too_deep(e) for e in t[n:]) for t in (mine, other)):
                # a node within itself: both give up, how deep in differs
                rec.count('endless_in_both')
                return
            raise Violation('differs:%s:%s' % (kind, a[0]), 'step %d with the accelerator: %s\nwithout: %s' % (n, json.dumps(a)[:1500], json.dumps(b)[:1500]), '\n'.join(map(json.dumps, mine[:n])))
    if len(mine) != len(other):
        raise Violation('differs:%s:length' % kind, 'one trace has %d entries, the other %d' % (len(mine), len(other)))


def too_deep(e):
    return isinstance(e[-1], list) and e[-1][:2] == ['raised', 'RecursionError']


def same(a, b):
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return False
        if a and a[0] == 'matrix' == b[0]:
            # single and double precision may be mixed: only the values count
            x, y = np.array(a[1]), np.array(b[1])
            return x.shape == y.shape and bool(np.all(np.abs(x - y) <= a[2] + 4e-5 * np.abs(x)))
        return all(same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


# -- what both processes run: trace(kind, seed) -> list of entries
def trace(kind, seed):
    rng = random.Random(seed)
    out = []
    try:
        {'fields': fields, 'plain': plain, 'nodes': nodes, 'document': document, 'matrices': matrices}[kind](rng, out)
    except Exception as exc:
        out.append(['ended', type(exc).__name__, clean(str(exc)) if not isinstance(exc, SyntaxError) else ''])
    return out


def clean(text):
    return re.sub(r'0[xX][0-9a-fA-F]+', '0x', text)[:300]


def canon(v, names=None):
    if v is None or isinstance(v, bool):
        return v
    if isinstance(v, str):
        return clean(v)
    if isinstance(v, (int, float)):
        return [type(v).__name__, repr(v)]
    if isinstance(v, bytes):
        return ['bytes', repr(v)]
    if isinstance(v, np.ndarray):
        return ['array', str(v.dtype), list(v.shape), v.flags['C_CONTIGUOUS'], [repr(x) for x in v.ravel().tolist()]]
    if isinstance(v, np.generic):
        return ['generic', str(v.dtype), repr(v.item())]
    if isinstance(v, (list, tuple)):
        return [type(v).__name__, [canon(x, names) for x in v]]
    if isinstance(v, lib.node.NullNode):
        return 'NULL'
    if isinstance(v, lib.Node):
        return ['node', lib.protoName(v), (names or {}).get(id(v), '?')]
    return ['object', type(v).__name__]


def attempt(out, label, fn, names=None):
    try:
        v = fn()
        out.append([label, canon(v, names)])
        return v
    except Exception as exc:
        out.append([label, ['raised', type(exc).__name__]])


class Ears:
    def __init__(self, out, names):
        self.out, self.names = out, names
        lib.dispatcher.connect(self.hear)

    def hear(self, signal=None, sender=None, **named):
        if id(sender) not in self.names or not isinstance(signal, tuple):
            return
        f = signal[1]
        self.out.append(['signal', str(signal[0]), getattr(f, 'name', '?'), self.names[id(sender)], sorted((k, canon(v, self.names)) for k, v in named.items())])

    def close(self):
        lib.dispatcher.disconnect(self.hear)


def state(o, names):
    return ['state', names[id(o)], [[k, canon(v, names)] for k, v in sorted(o.__dict__.items(), key=lambda i: str(i[0])) if isinstance(k, str)]]


def fields(rng, out):
    """All public operations of fields on prototyped nodes"""
    typs = [rng.choice(TYPES) for _ in range(rng.randint(2, 6))]
    fs = []
    for i, t in enumerate(typs):
        cls = values.field_class(t)
        args = ['f%d' % i, rng.random() < .6]
        if rng.random() < .6:
            args.append(values.spelling(rng, t, values.base(rng, t))[1])
            if isinstance(args[-1], (map, zip)):
                args[-1] = list(args[-1])
        fs.append(cls(*args))
    fs.append(lib.field.newField('kids', 'MFNode', 1, list))
    fs.append(lib.field.newField('kid', 'SFNode', rng.random() < .5))
    proto = lib.node.prototype('P', fs + [lib.field.newEvent('ev', rng.choice(['SFFloat', 'MFVec3f', 'SFNode']), rng.random() < .5)])
    objs = [proto() for _ in range(2)]
    names = {id(o): 'n%d' % i for i, o in enumerate(objs)}
    pool = [lib.basenodes.Box(), lib.basenodes.Group()]
    names.update((id(o), 'p%d' % i) for i, o in enumerate(pool))
    ears = Ears(out, names)
    try:
        for _ in range(rng.randint(10, 30)):
            o = rng.choice(objs)
            i = rng.randrange(len(typs))
            t, name = typs[i], 'f%d' % i
            f = fs[i]
            op = rng.randrange(20)
            bad = rng.random() < .2
            if op >= 17:
                f = rng.choice([fs[-1], fs[-2]])
                name = f.name
                v = rng.choice([pool[0], [pool[1]], None, 5, 'x', list(pool), lib.NULL])
            elif bad:
                v = values.wrong(rng, t)
                v = v[1] if isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], str) else v
            else:
                v = values.spelling(rng, t, values.base(rng, t))[1]
            if op in (0, 1, 2, 3, 17, 18):
                attempt(out, 'setattr', lambda: setattr(o, name, v), names)
            elif op == 4:
                attempt(out, 'getattr', lambda: getattr(o, name), names)
            elif op == 5:
                attempt(out, 'fset', lambda: f.fset(o, v), names)
            elif op == 6:
                attempt(out, 'fset-quiet', lambda: f.fset(o, v, 0), names)
            elif op == 7:
                n = rng.choice([0, 1, True, False, 2, -1])
                attempt(out, 'fset-notify', lambda: f.fset(o, v, notify=n), names)
            elif op == 8:
                attempt(out, 'fget', lambda: f.fget(o, type(o)), names)
            elif op == 9:
                attempt(out, 'delattr', lambda: delattr(o, name), names)
            elif op == 10:
                n = rng.choice([0, 1, None])
                attempt(out, 'fdel', lambda: f.fdel(o) if n is None else f.fdel(o, n), names)
            elif op == 11:
                attempt(out, 'coerce', lambda: f.coerce(v), names)
            elif op == 12:
                attempt(out, 'check', lambda: bool(f.check(f.coerce(v))), names)
            elif op == 13:
                attempt(out, 'getDefault', lambda: f.getDefault(), names)
            elif op == 14:
                attempt(out, 'getDefault-client', lambda: f.getDefault(o), names)
            elif op == 15:
                attempt(out, 'class', lambda: getattr(proto, name) is f, names)
                attempt(out, 'attributes', lambda: [f.name, bool(f.exposure), bool(f.call_default), canon(f.defaultobj), clean(repr(f)), clean(str(f))])
            elif op == 16:
                p = rng.choice(['set_' + name, name + '_changed'])
                attempt(out, 'event-set', lambda: setattr(o, p, v), names)
                attempt(out, 'event-get', lambda: getattr(o, p), names)
            else:
                attempt(out, 'event', lambda: setattr(o, 'ev', rng.choice([1.5, [(1, 2, 3)], pool[0], 'x'])), names)
            if rng.random() < .4:
                out.append(state(o, names))
        for o in objs:
            out.append(state(o, names))
    finally:
        ears.close()


def plain(rng, out):
    """BaseField itself, as a descriptor of classes which are no nodes"""
    BF = lib.field.BaseField

    class Upper(BF):
        def coerce(self, value):
            if not isinstance(value, str):
                raise rng_error
            return value.upper()

    rng_error = rng.choice([TypeError, ValueError, OverflowError, KeyError])('no')
    default = rng.choice([None, 5, 'text', (1, 2), list, dict, lambda: 'made'])
    a, b = BF('a', default), Upper('b', rng.choice(['x', lambda: 'y', None, 3]))

    class C:
        x, y = a, b
        plain = 1

    class D(C):
        pass

    objs = [C(), D()]
    names = {id(o): 'o%d' % i for i, o in enumerate(objs)}
    ears = Ears(out, names)
    try:
        for _ in range(rng.randint(5, 25)):
            o = rng.choice(objs)
            f, name = rng.choice([(a, 'x'), (b, 'y')])
            v = rng.choice([1, 'value', None, [1], (2, 3), 2.5])
            op = rng.randrange(12)
            if op == 0:
                attempt(out, 'get', lambda: getattr(o, name))
            elif op in (1, 2):
                attempt(out, 'set', lambda: setattr(o, name, v))
            elif op == 3:
                attempt(out, 'del', lambda: delattr(o, name))
            elif op == 4:
                n = rng.choice([0, 1, True, False, 2, -1])
                attempt(out, 'fset', lambda: f.fset(o, v, n))
            elif op == 5:
                attempt(out, 'fset', lambda: f.fset(o, v))
            elif op == 6:
                n = rng.choice([0, 1, 2])
                attempt(out, 'fdel', lambda: f.fdel(o, n))
            elif op == 7:
                attempt(out, 'fget', lambda: f.fget(o, type(o)))
            elif op == 8:
                attempt(out, 'class', lambda: getattr(rng.choice([C, D]), name) is f)
            elif op == 9:
                attempt(out, 'default', lambda: f.getDefault(rng.choice([None, o])))
            elif op == 10:
                attempt(out, 'coerce', lambda: f.coerce(v))
                attempt(out, 'check', lambda: f.check(v))
            else:
                attempt(out, 'attributes', lambda: [f.name, canon(f.defaultobj), bool(f.call_default)])
            out.append(['dict', [[k, canon(x)] for k, x in sorted(o.__dict__.items())]])
        if rng.random() < .3:
            # given to the class itself
            E = type('E', (), {'q': 7})
            attempt(out, 'fset-class', lambda: a.fset(E, 'here'))
            attempt(out, 'fset-class', lambda: E.__dict__.get('a'))
            objs.append(E)
            names[id(E)] = 'E'
            for _ in range(rng.randint(1, 6)):
                f, n = rng.choice([a, b, a]), rng.choice([0, 1])
                if rng.random() < .5:
                    attempt(out, 'fset-class', lambda: f.fset(E, rng.choice(['a', 'b', 3]), n))
                else:
                    attempt(out, 'fdel-class', lambda: f.fdel(E, n))
                out.append(['class-dict', [[k, canon(x)] for k, x in sorted(E.__dict__.items()) if k[0] != '_']])
    finally:
        ears.close()


def nodes(rng, out):
    """Nodes, lists, routes, copies and caches"""
    bld = gen.Build(lib, rng)
    B = lib.basenodes
    objs = [rng.choice([B.Transform, B.Group, B.Material, B.PointLight, B.Switch, B.OrientationInterpolator, B.PositionInterpolator, B.Text, B.IndexedFaceSet])() for _ in range(rng.randint(2, 5))]
    spare = [B.Group(), B.Material(), B.Shape()]
    names = {id(o): 'n%d' % i for i, o in enumerate(objs + spare)}
    scene = lib.scenegraph.SceneGraph(children=objs[:1])
    names[id(scene)] = 'scene'
    ears = Ears(out, names)
    routes, holders = [], []
    try:
        for _ in range(rng.randint(10, 30)):
            o = rng.choice(objs)
            fs = [f for f in lib.getFields(o) if f.name[0] != ' ' and f.name != 'externalURL' and f.typeName() in values.VRML97 and isinstance(f, lib.field.Field)]
            f = rng.choice(fs)
            name = f.name.strip()
            op = rng.randrange(12)
            if op < 4:
                if f.typeName() in ('SFNode', 'MFNode'):
                    later = (objs + spare)[objs.index(o) + 1:]      # no cycles
                    v = rng.choice([lib.NULL, None, later[0], [later[-1]], []])
                elif rng.random() < .15:
                    v = object()
                else:
                    v = flow.new_value(rng, f.typeName(), bld)[1]
                attempt(out, 'set', lambda: setattr(o, name, v), names)
            elif op == 4:
                attempt(out, 'get', lambda: getattr(o, name), names)
            elif op == 5:
                attempt(out, 'del', lambda: delattr(o, name), names)
            elif op == 6:
                p = rng.choice(objs)
                g = [x for x in lib.getFields(p) if x.name[0] != ' ' and x.name != 'externalURL' and x.typeName() == f.typeName() and isinstance(x, lib.field.Field)]
                if g and p is not o:
                    g = rng.choice(g)
                    r = attempt(out, 'route', lambda: lib.route.ROUTE(o, name, p, g.name.strip()))
                    routes.append(r)
            elif op == 7 and routes:
                del routes[rng.randrange(len(routes))]
            elif op == 8:
                h = lib.cache.CACHE.holder(o, 'data', rng.choice('ab'))
                attempt(out, 'depend', lambda: h.depend(o, name))
                holders.append(o)
            elif op == 9 and holders:
                attempt(out, 'cached', lambda: [lib.cache.CACHE.getData(x, k) for x in holders for k in 'ab'])
            elif op == 10 and hasattr(o, 'children'):
                k = rng.randrange(4)
                x = rng.choice([B.Shape(), spare[-1], 'no node'])
                if k == 0:
                    attempt(out, 'append', lambda: o.children.append(x), names)
                elif k == 1:
                    attempt(out, 'pop', lambda: o.children.pop(), names)
                elif k == 2:
                    attempt(out, 'slice', lambda: o.children.__setitem__(slice(0, 1), [x]), names)
                else:
                    attempt(out, 'remove', lambda: o.children.remove(x), names)
            else:
                attempt(out, 'repr', lambda: clean(repr(o)))
            if rng.random() < .3:
                out.append(state(o, names))
        for o in objs:
            out.append(state(o, names))
    finally:
        ears.close()
    c = attempt(out, 'copy', lambda: objs[0].copy() if hasattr(objs[0], 'copy') else None)
    attempt(out, 'text', lambda: lib.linearise.linearise(scene))


def document(rng, out):
    ast = c04.document(rng)[1]
    text = gen.Emitter(rng, 'plain').document(ast)
    if rng.random() < .3:
        # perhaps no document at all any more
        i = rng.randrange(len(text))
        text = text[:i] + rng.choice(['', '}', 'x', ' 5 ', '"']) + text[i + rng.choice([0, 1, 10]):]
    if 'parser' not in STATE:
        STATE['parser'] = lib.parser()
    scene = attempt(out, 'parse', lambda: lib.parse(text, STATE['parser']))
    if scene is not None:
        attempt(out, 'linear', lambda: lib.linearise.linearise(scene, getattr(lib.linearise, rng.choice(c04.STYLES))))
        again = attempt(out, 'copy', lambda: scene.copy())
        attempt(out, 'linear-copy', lambda: lib.linearise.linearise(again))


def matrices(rng, out):
    tm = lib.transformmatrix
    k = rng.randrange(4)

    def put(label, m):
        # factors which may be large and cancel each other: an absolute allowance from the sizes
        out.append([label, None if m is None else ['matrix', np.asarray(m, 'd').tolist(), allowance]])

    allowance = 1e-6
    if k == 0:
        name = rng.choice(['rotMatrix', 'scaleMatrix', 'transMatrix'])
        v = {'rotMatrix': c15.rotation, 'scaleMatrix': c15.scaling, 'transMatrix': c15.vector}[name](rng)
        if rng.random() < .1 and name == 'rotMatrix':
            v = (0.0, 0.0, 0.0) + v[3:]
        if name == 'rotMatrix':
            allowance = 4e-6
        if rng.random() < .1:
            v = rng.choice([None, 'x', (1, 2), (1, 2, 'z', 3), 5])
        got = attempt_pair(out, name, lambda: getattr(tm, name)(v))
        if got:
            for m in got:
                put(name, m)
    elif k == 1:
        fovy, aspect, near = rng.uniform(.1, 3), rng.uniform(.3, 3), rng.uniform(.1, 5)
        args = (fovy, aspect, near, near * rng.choice([2, 10, 500]))
        inv = rng.random() < .5
        put('perspective', tm.perspectiveMatrix(*args, inverse=inv))
        lo = [rng.uniform(-20, 20) for _ in range(3)]
        hi = [x + rng.uniform(1, 30) for x in lo]
        allowance = 1e-5
        put('ortho', tm.orthoMatrix(lo[0], hi[0], lo[1], hi[1], lo[2], hi[2]))
    else:
        from .. import tmath
        kw, vals = c15.arguments(rng)
        for inverse in (False, True):
            _, size = tmath.product(tmath.factors(vals, inverse))
            allowance = float((1e-4 * size).max())
            got = tm.localMatrices(**kw)
            put('local', got[inverse])
        t = lib.basenodes.Transform(**{n: v for n, v in kw.items() if v is not None})
        p = lib.nodepath.NodePath([t, lib.basenodes.Group()])
        flags = [rng.random() < .7 for _ in range(3)]
        inverse = rng.random() < .5
        _, size = tmath.of_path([vals], flags, inverse)
        allowance = float((1e-4 * size).max())
        put('path', p.transformMatrix(*flags, inverse=inverse))
        t.translation = (1, 2, 3)
        vals['translation'] = (1, 2, 3)
        _, size = tmath.of_path([vals], flags, inverse)
        allowance = float((1e-4 * size).max())
        put('path-again', p.transformMatrix(*flags, inverse=inverse))


def attempt_pair(out, label, fn):
    try:
        return fn()
    except Exception as exc:
        out.append([label, ['raised', 'an exception']])
