"""C08: a value a field cannot hold is refused: exception, nothing stored, nothing notified."""
from .. import flow, lib, values
from ..rec import Violation
from ..spec97 import NODES

CLEANUP_EVERY = 200
STATE = {}
HIDDEN = ('MFRoute', 'SceneGraph')


def plan(tier, mode):
    k = 1 if tier == 'quick' else 20
    return [('proto', 1200 * k), ('standard', 500 * k), ('routed', 300 * k), ('restricted', 40 * k)]


def setup(ctx):
    fields = []
    for t in sorted(values.ALL) + ['SFNode', 'MFNode']:
        cls = values.field_class(t)
        fields.append(cls('f' + t, 1))
        fields.append(cls('g' + t, 0))
    STATE['proto'] = lib.node.prototype('EveryType', fields)
    byt = {}
    for n, spec in NODES.items():
        for f, (x, t, d) in spec.fields.items():
            byt.setdefault(t, []).append((n, f))
    STATE['byt'] = byt


class Ears:
    """Hears every signal sent through the dispatcher"""

    def __init__(self):
        self.heard = []
        lib.dispatcher.connect(self.hear, signal=lib.dispatcher.Any, sender=lib.dispatcher.Any)

    def hear(self, signal=None, sender=None, **named):
        self.heard.append((signal, sender))

    def close(self):
        lib.dispatcher.disconnect(self.hear, signal=lib.dispatcher.Any, sender=lib.dispatcher.Any)


def snapshot(o):
    """Identity and content of everything stored for a node"""
    return {k: (id(v), flow.rep(v)) for k, v in o.__dict__.items()}


def good(rng, typ):
    if typ == 'SFNode':
        return lib.basenodes.Group()
    if typ == 'MFNode':
        return [lib.basenodes.Group() for _ in range(rng.randint(0, 3))]
    v = values.base(rng, typ)
    return values.spelling(rng, typ, v)[1]


def pick(kind, rng):
    if kind == 'proto':
        typ = rng.choice(sorted(values.ALL) + ['SFNode', 'MFNode', 'SFNode', 'MFNode'])
        return STATE['proto'], rng.choice('fg') + typ, typ
    typ = rng.choice(sorted(STATE['byt']))
    n, name = rng.choice(STATE['byt'][typ])
    cls = lib.basenamespaces.basePrototypes[n]
    return cls, name, lib.getField(cls, name).typeName()


def run_case(kind, index, rng, rec, ctx):
    if kind == 'routed':
        return routed(index, rng, rec)
    if kind == 'restricted':
        return restricted(index, rng, rec)
    for _ in range(12):
        cls, name, typ = pick(kind, rng)
        label, value = values.wrong(rng, typ)
        what = '%s:%s' % (typ, label)
        shown = repr(value)[:200]
        attempt(rng, rec, cls, name, typ, value, what, shown, {})
        rec.count('type_' + typ)
        rec.count('label_' + label)
        rec.nontrivial(typ, label, shown)
        if index < 2:
            rec.sample('%s.%s = %s' % (cls.__name__, name, shown))


def attempt(rng, rec, cls, name, typ, value, what, shown, first):
    f = lib.getField(cls, name)
    way = rng.randrange(5)
    if way == 0:
        named = {name: value}
        if rng.random() < .5:
            named = {name: value, 'DEF': 'named'} if rng.random() < .5 else {'DEF': 'named', name: value}
        ears = Ears()
        try:
            o = cls(**named)
        except (ValueError, TypeError):
            pass
        else:
            raise Violation('constructor-accepts:' + what, '%s(%s = %s) made a node with %r' % (cls.__name__, name, shown, getattr(o, name)))
        finally:
            ears.close()
        heard = [h for h in ears.heard if h[0] == ('set', f)]
        rec.require(not heard, 'notified:' + what, '%s(%s = %s) sent %r' % (cls.__name__, name, shown, heard))
        rec.count('way_constructor')
        return
    o = cls(DEF='x') if rng.random() < .5 else cls()
    state = rng.randrange(3)
    if state == 1:
        getattr(o, name)
    elif state == 2:
        setattr(o, name, good(rng, typ))
    rec.count('state_' + ['unset', 'default', 'set'][state])
    snap = snapshot(o)
    keep = list(o.__dict__.values())
    before = {k: id(v) for k, v in vars(cls).items()}
    ears = Ears()
    try:
        if way == 1:
            setattr(o, name, value)
        elif way == 2:
            f.fset(o, value)
        elif way == 3:
            f.fset(o, value, notify=0)
        else:
            f.__set__(o, value)
    except (ValueError, TypeError):
        pass
    else:
        raise Violation('accepted:' + what, '%s.%s = %s is accepted and stored as %r' % (cls.__name__, name, shown, getattr(o, name)))
    finally:
        ears.close()
    after = snapshot(o)
    rec.require(after == snap, 'changed:' + what, '%s.%s = %s was refused but the node changed from %r to %r' % (cls.__name__, name, shown, snap, after))
    rec.require(not ears.heard, 'notified:' + what, '%s.%s = %s was refused but sent %r' % (cls.__name__, name, shown, ears.heard))
    rec.require({k: id(v) for k, v in vars(cls).items()} == before, 'class-changed:' + what, 'the class changed')
    del keep
    # and the field works on
    if rng.random() < .5:
        v = good(rng, typ)
        setattr(o, name, v)
        rec.count('good_values_afterwards')
    rec.count('way_' + ['', 'setattr', 'fset', 'fset-quiet', '__set__'][way])
    rec.count('refusals')


def routed(index, rng, rec):
    """A value that arrives along a ROUTE and does not fit is dropped"""
    cls = STATE['proto']
    for _ in range(6):
        pairs = [('SFString', 'SFFloat', 'abc'), ('SFString', 'SFVec3f', '1 2'), ('MFFloat', 'SFVec3f', [1, 2]), ('MFFloat', 'MFVec2f', [1, 2, 3]), ('SFNode', 'SFFloat', lib.basenodes.Box()),
                 ('SFFloat', 'SFNode', 1.5), ('MFNode', 'SFNode', [lib.basenodes.Box(), lib.basenodes.Box()]), ('MFString', 'MFFloat', ['a', 'b']), ('SFFloat', 'MFString', 2.0),
                 ('SFVec3f', 'SFRotation', (1, 2, 3)), ('SFString', 'SFInt32', '1.5'), ('SFVec2f', 'SFColor', (1, 1)), ('SFString', 'SFColor', 'nosuchcolor'), ('SFInt32', 'MFNode', 7)]
        st, dt, value = rng.choice(pairs)
        a, b = cls(), cls()
        sf, df = rng.choice('fg') + st, rng.choice('fg') + dt
        if rng.random() < .6:
            setattr(b, df, good(rng, dt))
        else:
            getattr(b, df)
        r = lib.route.ROUTE(a, sf, b, df)
        snap = snapshot(b)
        keep = list(b.__dict__.values())
        try:
            setattr(a, sf, value)
        except Exception as exc:
            raise Violation('route-raises:%s-%s' % (st, dt), 'assigning %r to the source of %s: %s: %s' % (value, r, type(exc).__name__, exc))
        rec.require(snapshot(b) == snap, 'routed-changed:%s-%s' % (st, dt), '%r arrived along %s and changed the destination from %r to %r' % (value, r, snap.get(df), flow.rep(getattr(b, df))))
        want = flow.rep(flow.canonical(st, value)) if st not in values.NODE_TYPES else None
        rec.require(want is None or flow.rep(getattr(a, sf)) == want, 'routed-source:' + st, 'the source has %r' % (getattr(a, sf),))
        del keep
        # the route still works
        v = good(rng, dt)
        if st == dt:
            setattr(a, sf, v)
        rec.count('routed_refusals')
        rec.nontrivial('routed', st, dt, index)


def restricted(index, rng, rec):
    """Node fields which hold one kind of node only"""
    sg = lib.scenegraph.SceneGraph()
    kept = lib.route.ROUTE(lib.basenodes.Group(DEF='a'), 'children', lib.basenodes.Group(DEF='b'), 'children')
    if rng.random() < .5:
        sg.routes = [kept]
    else:
        list(sg.routes)
    box = lib.basenodes.Box()
    value = rng.choice([box, [box], [kept, box], [kept, 5], 'x', 5, [None, box], values.Thing()])
    snap, before = snapshot(sg), list(sg.routes)
    ears = Ears()
    try:
        sg.routes = value
    except (ValueError, TypeError):
        pass
    else:
        raise Violation('accepted:MFRoute', 'SceneGraph.routes = %r is accepted' % (value,))
    finally:
        ears.close()
    rec.require(snapshot(sg) == snap and list(sg.routes) == before, 'changed:MFRoute', 'SceneGraph.routes changed to %r' % (sg.routes,))
    rec.require(not [h for h in ears.heard if h[1] is sg], 'notified:MFRoute', 'sent %r' % (ears.heard,))
    rec.count('restricted_refusals')
    rec.nontrivial('restricted', index)
