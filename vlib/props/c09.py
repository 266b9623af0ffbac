"""C09: observers hear each change of a field exactly once, and nothing else."""
from .. import flow, lib, values
from ..rec import Violation
from ..spec97 import NODES

CLEANUP_EVERY = 50
STATE = {}
LISTOPS = ('append', 'insert', 'pop', 'popat', 'remove', 'delitem', 'delslice', 'setitem', 'setslice', 'extend', 'iadd', 'clear', 'assign-same-list')


def plan(tier, mode):
    k = 1 if tier == 'quick' else 20
    return [('history', 3000 * k), ('scene', 500 * k)]


def setup(ctx):
    fields = []
    for t in sorted(values.ALL) + ['SFNode', 'MFNode']:
        cls = values.field_class(t)
        fields.append(cls('f' + t, 1))
        fields.append(cls('g' + t, 0))
    for t in sorted(lib.field.baseEventTypes):
        fields.append(lib.field.newEvent('i' + t, t, 0))
        fields.append(lib.field.newEvent('o' + t, t, 1))
    STATE['proto'] = lib.node.prototype('EveryType', fields)
    STATE['handled'], STATE['watches'] = [], []
    STATE['handles'] = type('Handles', (STATE['proto'],), dict(('on_' + f.name, handler(f.name, i % 3)) for i, f in enumerate(fields) if isinstance(f, lib.field.Event)))


def handler(name, form):
    """A method told of the values put into an event port"""
    def note(self, value, event):
        STATE['handled'].append((name, self, value, event, sum(len(w.obs.log) for w in STATE['watches'])))
    if form == 0:
        return lambda self, value: note(self, value, None)
    if form == 1:
        return lambda self, value, event: note(self, value, event)
    return lambda self, value, event=None, other=3: note(self, value, event)


class Observer:
    """Records what it hears and what the field then reads"""

    def __init__(self, label):
        self.label, self.log = label, []

    def __call__(self, signal=None, sender=None, value=None):
        here = None
        if isinstance(signal, tuple) and signal[0] == 'set' and isinstance(sender, lib.Node):
            here = sender.__dict__.get(signal[1].name, 'nothing stored')
        elif isinstance(signal, tuple) and signal[0] == 'del' and isinstance(sender, lib.Node):
            here = signal[1].name in sender.__dict__
        self.log.append((signal, sender, value, here))


class Watch:
    """One connection of one observer: who it hears"""

    def __init__(self, rng, nodes):
        self.obs = Observer(None)
        self.node = rng.choice(nodes)
        self.field = rng.choice(usable(self.node))
        self.way = rng.choice(['watch-any', 'watch-set', 'watch-del', 'connect-set', 'connect-set', 'connect-del', 'sender-any', 'all'])
        f, n, d = self.field, self.node, lib.dispatcher
        if self.way == 'watch-any':
            self.pair = (d.Any, n)
            f.watch(n, self.obs)
        elif self.way.startswith('watch'):
            self.pair = ((self.way[6:], f), n)
            f.watch(n, self.obs, (self.way[6:], f))
        elif self.way.startswith('connect'):
            self.pair = ((self.way[8:], f), n)
            d.connect(self.obs, signal=self.pair[0], sender=n)
        elif self.way == 'sender-any':
            self.pair = (('set', f), d.Any)
            d.connect(self.obs, signal=self.pair[0])
        else:
            self.pair = (d.Any, d.Any)
            d.connect(self.obs, signal=d.Any, sender=d.Any)

    def close(self):
        lib.dispatcher.disconnect(self.obs, signal=self.pair[0], sender=self.pair[1])

    def hears(self, signal, sender):
        s, n = self.pair
        return (s is lib.dispatcher.Any or s == signal) and (n is lib.dispatcher.Any or n is sender)

    def __repr__(self):
        return '%s of %s.%s' % (self.way, type(self.node).__name__, self.field.name)


SKIP = (' root', ' scenegraph', 'externalURL')


def usable(o):
    out = [f for f in lib.getFields(o) if f.name not in SKIP]
    return sorted(out, key=lambda f: f.name)


def attr(o, f):
    """The attribute a field is found under"""
    for cls in type(o).__mro__:
        for k, v in vars(cls).items():
            if v is f:
                return k
    raise KeyError(f.name)


def value_for(rng, f, nodes):
    typ = f.typeName()
    if typ == 'SFNode':
        return rng.choice([lib.NULL, lib.basenodes.Box(), lib.basenodes.Group()])
    if typ == 'MFNode':
        return [lib.basenodes.Group() for _ in range(rng.randint(0, 3))]
    return values.spelling(rng, typ, values.base(rng, typ))[1]


def run_case(kind, index, rng, rec, ctx):
    nodes = []
    for _ in range(rng.randint(2, 4)):
        k = rng.random()
        if k < .4:
            nodes.append(rng.choice([STATE['proto'], STATE['handles']])())
        else:
            nodes.append(lib.basenamespaces.basePrototypes[rng.choice(sorted(NODES))]())
    if rng.random() < .4 and isinstance(nodes[0], STATE['proto']):
        nodes.append(STATE['proto']())     # same type, other node
    scene = None
    if kind == 'scene':
        scene = lib.scenegraph.SceneGraph(children=[lib.basenodes.Group()] + [n for n in nodes])
        for n in nodes:
            if lib.root(n) is not scene:
                raise Violation('no-root', '%r in a scene has the root %r' % (n, lib.root(n)))
    watches = [Watch(rng, nodes) for _ in range(rng.randint(2, 6))]
    try:
        history(kind, index, rng, rec, nodes, watches)
    finally:
        for w in watches:
            w.close()


def history(kind, index, rng, rec, nodes, watches):
    trail = []
    # the same few fields again and again, those that are watched above all
    targets = [(w.node, w.field) for w in watches]
    targets += [(rng.choice(nodes), None) for _ in range(6)]
    targets = [(n, f or rng.choice(usable(n))) for n, f in targets]
    for step in range(rng.randint(8, 20)):
        n, f = rng.choice(targets)
        op = rng.choice(['setattr', 'setattr', 'fset', 'fset1', 'fset-quiet', '__set__', 'same', 'del', 'fdel', 'fdel-quiet', 'read', 'read', 'list', 'list', 'event', 'new-watch', 'unwatch', 'construct', 'late-read'])
        exact, atleast, quiet = [], [], False
        islist = isinstance(f, lib.node.MFNode)
        for w in watches:
            w.obs.log = []
        handled = STATE['handled'] = []
        STATE['watches'] = watches
        port = None
        before = f.name in n.__dict__
        try:
            if op in ('setattr', 'fset', 'fset1', '__set__', 'same'):
                v = value_for(rng, f, nodes)
                if op == 'same' and before:
                    v = getattr(n, attr(n, f)) if not islist else list(getattr(n, attr(n, f)))
                (atleast if islist else exact).append((('set', f), n))
                if op in ('setattr', 'same'):
                    setattr(n, attr(n, f), v)
                elif op == 'fset':
                    f.fset(n, v)
                elif op == 'fset1':
                    f.fset(n, v, notify=1)
                else:
                    f.__set__(n, v)
            elif op == 'fset-quiet':
                if islist and before:
                    continue      # the contents of the list change, which the list reports
                f.fset(n, value_for(rng, f, nodes), notify=0)
            elif op in ('del', 'fdel', 'fdel-quiet'):
                if islist:
                    continue
                if before and op != 'fdel-quiet':
                    exact.append((('del', f), n))
                try:
                    if op == 'del':
                        delattr(n, attr(n, f))
                    elif op == 'fdel':
                        f.fdel(n)
                    else:
                        f.fdel(n, notify=0)
                except AttributeError:
                    if before:
                        raise Violation('del-refused', '%s of %s raises AttributeError' % (op, f))
                else:
                    rec.require(before, 'del-of-nothing', '%s of %s without a value is silent' % (op, f))
                rec.require(f.name not in n.__dict__, 'not-deleted', '%s of %s left %r' % (op, f, n.__dict__.get(f.name)))
            elif op == 'read':
                getattr(n, attr(n, f))
                f.fget(n)
                f.__get__(n, type(n))
            elif op == 'late-read':
                repr(n), str(n), f.fhas(n), lib.getField(n, f.name), lib.getFields(n), lib.protoName(n), lib.defName(n)
                f.getDefault()
                for g in usable(n):
                    g.fget(n)
            elif op == 'list':
                lists = [g for g in usable(n) if isinstance(g, lib.node.MFNode)]
                if not lists:
                    continue
                f = rng.choice(lists)
                if not edit(rng, n, f):
                    continue
                atleast.append((('set', f), n))
            elif op == 'event':
                events = sorted(lib.getFields(n, 1), key=lambda e: e.name)
                if not events:
                    continue
                f = rng.choice(events)
                typ = f.typeName()
                v = 5 if typ not in values.NODE_TYPES else lib.basenodes.Group()
                before = True
                port = (n, f, v)
                if rng.random() < .7:
                    setattr(n, attr(n, f), v)
                    exact.append((('set', f), n))
                else:
                    f.__set__(n, v, notify=0)
            elif op == 'new-watch':
                watches.append(Watch(rng, nodes))
                targets.append((watches[-1].node, watches[-1].field))
                continue
            elif op == 'unwatch':
                w = watches.pop(rng.randrange(len(watches)))
                w.close()
                w.obs.log = []
                targets.append((w.node, w.field))
                if not watches:
                    return
                continue
            else:
                cls = type(n)
                g = rng.choice(usable(n))
                m = cls(**{g.name: value_for(rng, g, nodes)})
                nodes.append(m)
                (atleast if isinstance(g, lib.node.MFNode) else exact).append((('set', g), m))
                f, n = g, m
        except Violation:
            raise
        except Exception as exc:
            raise Violation('raises:' + op, '%s of %s: %s: %s' % (op, f, type(exc).__name__, exc), '\n'.join(trail))
        what = '%s of %s.%s' % (op, type(n).__name__, f.name)
        trail.append(what)
        if port and isinstance(n, STATE['handles']):
            rec.require(len(handled) == 1 and handled[0][0] == f.name and handled[0][1] is n and handled[0][2] is v and handled[0][3] in (None, f), 'handler:' + op, '%s of %r calls %r' % (what, v, handled), '\n'.join(trail))
            rec.require(handled[0][4] == 0, 'handler-late', '%s: observers are told before the handler' % what, '\n'.join(trail))
            rec.count('handlers_called')
        else:
            rec.require(not handled, 'handler-called:' + op, '%s calls %r' % (what, handled), '\n'.join(trail))
        for w in watches:
            heard = [h for h in w.obs.log if isinstance(h[0], tuple) and h[0][0] in ('set', 'del', 'route') and h[0][1].name not in SKIP]
            if kind == 'scene':
                # a node that joins a scene is told its name again
                heard = [h for h in heard if h[0][1].name != ' DEF' or h[1] is n]
            due = [e for e in exact if w.hears(*e)]
            least = [e for e in atleast if w.hears(*e)]
            got = [(h[0], h[1]) for h in heard]
            tag = ':'.join([op, 'list' if least else 'value'])
            if due:
                rec.require(len(got) == 1 and got[0][0] == due[0][0] and got[0][1] is due[0][1], 'not-once:' + tag, '%s: %r heard %r' % (what, w, got), '\n'.join(trail))
                rec.count('exactly_once_' + due[0][0][0])
            elif least:
                ok = got and all(s == least[0][0] and m is least[0][1] for s, m in got)
                rec.require(ok, 'list-change-unheard:' + tag, '%s: %r heard %r' % (what, w, got), '\n'.join(trail))
                rec.count('list_changes_heard')
            else:
                rec.require(not got, 'heard-too-much:' + op, '%s: %r heard %r' % (what, w, got), '\n'.join(trail))
                rec.count('silences')
            for signal, sender, value, here in heard:
                if signal[0] == 'set':
                    rec.require(value is here, 'value-before-stored:' + tag, '%s: told %r while the field holds %r' % (what, value, here), '\n'.join(trail))
                else:
                    rec.require(here is False, 'del-before-done', '%s: told of the deletion while the value is stored' % what, '\n'.join(trail))
            if heard and heard[-1][0][0] == 'set':
                rec.require(heard[-1][2] is n.__dict__.get(f.name), 'last-value:' + tag, '%s: last told %r, the field holds %r' % (what, heard[-1][2], n.__dict__.get(f.name)), '\n'.join(trail))
        rec.count('op_' + op)
        rec.count('steps')
    rec.nontrivial(kind, index, trail)
    if index < 3:
        rec.sample('; '.join(trail))


def edit(rng, n, f):
    """Change the contents of a node list; False when the contents are the same as before"""
    lst = getattr(n, attr(n, f))
    new = lambda: rng.choice([lib.basenodes.Group, lib.basenodes.Box, lib.basenodes.Transform])()
    op = rng.choice(LISTOPS)
    k = len(lst)
    if op == 'append':
        lst.append(new())
    elif op == 'insert':
        lst.insert(rng.randint(-k, k + 1), new())
    elif op == 'extend':
        lst.extend([new() for _ in range(rng.randint(1, 3))])
    elif op == 'iadd':
        lst += [new()]
    elif op == 'setslice':
        i = rng.randint(0, k)
        lst[i:rng.randint(i, k)] = [new() for _ in range(rng.randint(1, 3))]
    elif op == 'assign-same-list':
        setattr(n, attr(n, f), lst + [new()])
    elif not k:
        return False
    elif op == 'pop':
        lst.pop()
    elif op == 'popat':
        lst.pop(rng.randint(-k, k - 1))
    elif op == 'remove':
        lst.remove(rng.choice(lst))
    elif op == 'delitem':
        del lst[rng.randint(-k, k - 1)]
    elif op == 'delslice':
        i = rng.randrange(k)
        del lst[i:rng.randint(i + 1, k)]
    elif op == 'setitem':
        lst[rng.randint(-k, k - 1)] = new()
    else:
        lst.clear()
    return True
