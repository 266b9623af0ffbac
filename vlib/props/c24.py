"""C24: weak node fields refer to nodes without keeping them."""
import gc
import weakref
from .. import lib
from ..rec import Violation

CLEANUP_EVERY = 100
STATE = {}


def plan(tier, mode):
    k = 1 if tier == 'quick' else 20
    return [('history', 1500 * k)]


def setup(ctx):
    W = lib.node.WeakSFNode
    STATE['weak'] = {'w': W('w', 1, lib.NULL), 'v': W('v', 0), ' hidden': W(' hidden', 1)}
    class Holder(lib.Node):
        PROTO = 'Holder'
        w = STATE['weak']['w']
        v = STATE['weak']['v']
        hidden = STATE['weak'][' hidden']
        strong = lib.field.newField('strong', 'SFNode', 1)
        number = lib.field.newField('number', 'SFFloat', 1, 1.0)
    STATE['cls'] = Holder
    STATE['proto'] = lib.node.prototype('WeakProto', [W('w', 1, lib.NULL), W('v', 1), lib.field.newField('strong', 'SFNode', 1)])


class Target:
    def __init__(self, node):
        self.node, self.ref = node, weakref.ref(node)


class Case:
    def __init__(self, rng, rec):
        self.rng, self.rec = rng, rec
        self.targets, self.holders, self.heard = [], [], []
        self.log = []
        self.serial = 0

    def target(self, alive=True):
        live = [t for t in self.targets if t.node is not None]
        if not live or self.rng.random() < .3:
            make = self.rng.choice([lib.basenodes.Box, lib.basenodes.Group, STATE['cls'], lib.basenodes.Material])
            t = Target(make())
            self.targets.append(t)
            return t
        return self.rng.choice(live)

    def holder(self, **kw):
        cls = self.rng.choice([STATE['cls'], STATE['proto']])
        n = cls(**kw)
        h = {'node': n, 'state': {}, 'strong': None, 'fields': {a: f for a, f in (('w', cls.w), ('v', cls.v)) + ((('hidden', cls.hidden),) if cls is STATE['cls'] else ())}}
        self.holders.append(h)
        return h

    def expect(self, h, a):
        """The node a field should give (None: none)"""
        t = h['state'].get(a)
        return t if t is not None and self.kept(t) else None

    def kept(self, t):
        return t.node is not None or any(h['node'] is not None and h['strong'] is t for h in self.holders)

    def check(self):
        rec, rng = self.rec, self.rng
        for t in self.targets:
            alive = t.ref() is not None
            if alive and not self.kept(t):
                gc.collect()
                alive = t.ref() is not None
            rec.require(alive == self.kept(t), 'kept-by-weak-field' if alive else 'died-too-early', 'after %s' % self.log[-8:])
            rec.count('liveness_checked')
        for h in self.holders:
            n = h['node']
            if n is None:
                continue
            for a, f in h['fields'].items():
                want = self.expect(h, a)
                for way in rng.sample(['attribute', 'fget', 'getattr'], 2):
                    got = getattr(n, a) if way == 'attribute' else f.fget(n) if way == 'fget' else f.__get__(n, type(n))
                    if want is None:
                        rec.require(not got and not isinstance(got, weakref.ReferenceType), 'gives-something', lambda: '%s gives %r after %s' % (a, got, self.log[-8:]))
                    else:
                        rec.require(got is want.ref(), 'gives-another', lambda: '%s by %s gives %r, not %r, after %s' % (a, way, got, want.ref(), self.log[-8:]))
                    del got
                    rec.count('reads')
                if want is None:
                    h['state'].pop(a, None)
            rec.require(type(n).w is h['fields']['w'], 'field-of-type', 'the type does not give the field')


def run_case(kind, index, rng, rec, ctx):
    c = Case(rng, rec)
    heard = c.heard

    def hear(signal, sender, value=None):
        heard.append((signal, id(sender)))

    for _ in range(rng.randint(1, 3)):
        c.holder()
    routes = []
    for step in range(rng.randint(6, 20)):
        live = [h for h in c.holders if h['node'] is not None]
        if not live:
            live = [c.holder()]
        h = rng.choice(live)
        n = h['node']
        a = rng.choice(sorted(h['fields']))
        f = h['fields'][a]
        op = rng.choice(['assign'] * 6 + ['none', 'none', 'delete', 'drop', 'drop', 'drop', 'strong', 'unstrong', 'copy', 'new', 'forget', 'bad', 'route', 'other'])
        c.log.append(op)
        del heard[:]
        # (hearing the field anew, so that nodes can be dropped)
        f.watch(n, hear, ('set', f))
        f.watch(n, hear, ('del', f))
        due = []
        stored = f.name in n.__dict__
        if op == 'assign':
            t = c.target()
            way = rng.choice(['attribute', 'fset', 'quiet', 'weakref', 'weakref-fset'])
            c.log[-1] += ':' + way
            if way == 'attribute':
                setattr(n, a, t.node)
            elif way == 'weakref':
                setattr(n, a, t.ref)
            elif way == 'quiet':
                f.fset(n, t.node, notify=0)
            else:
                got = f.fset(n, t.node if way == 'fset' else t.ref)
                rec.require(got is t.node, 'fset-gives', lambda: '%r' % got)
                del got
            h['state'][a] = t
            due = [(('set', f), id(n))] if way != 'quiet' else []
            del t
            rec.count('assigned')
        elif op == 'none':
            v = rng.choice([None, lib.NULL, 'dead'])
            if v == 'dead':
                v = weakref.ref(lib.basenodes.Box())
                rec.count('dead_references')
            had = c.expect(h, a)
            silent = False
            if rng.random() < .5:
                setattr(n, a, v)
            else:
                silent = rng.random() < .5
                f.fset(n, v, notify=0 if silent else 1)
            h['state'].pop(a, None)
            rec.require(not silent or not heard, 'silent-clearing-told', lambda: '%s' % heard)
            rec.require(silent or had is None or had is lib.NULL or len(heard) == 1, 'clearing-untold', lambda: 'setting %r where %r was told %s' % (v, had, heard))
            rec.count('clearings_told', len(heard))
            del had
            rec.require(all(s == (('del', f), id(n)) for s in heard) and len(heard) <= 1, 'clearing-told', lambda: '%s' % heard)
            due = list(heard)
            rec.count('cleared')
        elif op == 'delete':
            try:
                if rng.random() < .5:
                    delattr(n, a)
                else:
                    f.fdel(n)
            except AttributeError:
                rec.require(not stored, 'delete-refused', 'after %s' % c.log[-8:])
            else:
                rec.require(stored, 'delete-accepted', 'nothing was stored: %s' % c.log[-8:])
                due = [(('del', f), id(n))]
            h['state'].pop(a, None)
        elif op == 'drop':
            t = [t for t in c.targets if t.node is not None]
            if t:
                t = rng.choice(t)
                t.node = None
                rec.count('dropped')
                if any(x['state'].get(b) is t for x in c.holders for b in x['fields']):
                    rec.count('dropped_in_weak_field')
            del t
            due = None
        elif op == 'strong':
            t = c.target()
            n.strong = t.node
            h['strong'] = t
            del t
        elif op == 'unstrong':
            n.strong = None
            h['strong'] = None
            due = None
        elif op == 'new':
            t = c.target()
            b = rng.choice(['w', 'v'])
            x = c.holder(**{b: t.node})
            x['state'][b] = t
            del t, x
            rec.count('constructed')
        elif op == 'forget':
            # a holder goes: its targets neither keep it nor go with it
            ref = weakref.ref(n)
            c.holders.remove(h)
            own = [t for t in c.targets if t.node is n or h['strong'] is t]
            h['node'] = None
            del n, h
            if not own and not any(t.ref() is ref() for t in c.targets) and not routes:
                if ref() is not None:
                    gc.collect()
                rec.require(ref() is None, 'holder-kept', 'after %s' % c.log[-8:])
                rec.count('holders_dropped')
            due = None
        elif op == 'bad':
            v = rng.choice([5, 'Box', 1.5, object])
            if v is object:
                v = 7
            before = n.__dict__.get(f.name, 'unset')
            try:
                setattr(n, a, v) if rng.random() < .5 else f.fset(n, v)
            except (TypeError, ValueError):
                rec.count('refused')
            else:
                raise Violation('accepted', '%r as a node' % (v,))
            rec.require(n.__dict__.get(f.name, 'unset') is before, 'refused-changed', 'the value changed')
            del before
        elif op == 'copy':
            m = n.copy()
            x = {'node': m, 'state': {b: t for b, t in h['state'].items() if t is not h['strong']}, 'strong': None, 'fields': h['fields']}
            if h['strong'] is not None and c.kept(h['strong']):
                # a node which is copied along is referred to in its copy
                for b, t in h['state'].items():
                    if t is h['strong']:
                        rec.require(getattr(m, b) in (m.strong, t.ref()), 'copy-refers', lambda: '%r' % getattr(m, b))
                m.strong = None
                for b in h['fields']:
                    if b not in x['state'] and h['fields'][b].name in m.__dict__:
                        m.__dict__.pop(h['fields'][b].name)
            c.holders.append(x)
            rec.count('copies')
            del m, x
            due = None
        elif op == 'route':
            s = STATE['cls']()
            r = lib.route.ROUTE(source=s, sourceField='strong', destination=n, destinationField=a)
            t = c.target()
            s.strong = t.node
            h['state'][a] = t
            rec.require(getattr(n, a) is t.node, 'route-lost', lambda: '%r' % getattr(n, a))
            rec.count('routed')
            del s, r, t
            gc.collect()
            due = None
        elif op == 'other':
            if type(n) is STATE['cls']:
                n.number = rng.random()
        if due is not None:
            rec.require(heard == due, 'told-differs', lambda: '%s: %s, not %s' % (c.log[-1], [s[0][0] for s in heard], [s[0][0] for s in due]))
            rec.count('signals', len(due))
        n = h = None
        told = len(heard)
        c.check()
        rec.require(len(heard) == told, 'reading-told', lambda: 'reading sends %s, after %s' % ([s[0][0] for s in heard[told:]], c.log[-8:]))
    rec.nontrivial(c.log)
