"""C10: unset fields read the default of the node type, and every node has values of its own."""
import numpy as np
from .. import flow, gen, lib, values
from ..rec import Violation
from ..spec97 import NODES

CLEANUP_EVERY = 100
SKIP = (' DEF', ' root', ' scenegraph', 'externalURL')


ONCE = ('catalogue',)


def plan(tier, mode):
    k = 1 if tier == 'quick' else 15
    return [('catalogue', len(NODES)), ('standard', 800 * k), ('proto', 700 * k), ('parsed', 300 * k)]


class Kind:
    """A node type: how to make one, its fields (name, type, default test)"""

    def __init__(self, cls, fields, label):
        self.cls, self.fields, self.label = cls, fields, label
        self.defaults = {}

    def check_default(self, name, typ, default, value):
        """Problem with what an unset field reads"""
        if typ == 'SFNode':
            return None if isinstance(value, lib.NullNode) else 'not NULL'
        if typ == 'MFNode':
            return None if isinstance(value, lib.olist.OList) and not len(value) else 'not an empty list'
        if isinstance(default, tuple) and default[0] == 'canonical':
            return values.is_canonical(typ, value, default[1])
        return None if gen.same_value(typ, default, value) else 'not the default %r' % (default,)


def standard(rng):
    n = rng.choice(sorted(NODES))
    return Kind(lib.basenamespaces.basePrototypes[n], [(f, t, d) for f, (x, t, d) in NODES[n].fields.items()], n)


def built(rng):
    fields, known = [], []
    types = sorted(values.ALL) + ['MFNode', 'SFNode']
    for i in range(rng.randint(2, 8)):
        typ = rng.choice(types)
        name = 'f%d' % i
        cls = values.field_class(typ)
        if typ in values.NODE_TYPES:
            fields.append(cls(name, rng.randint(0, 1)))
            known.append((name, typ, None))
            continue
        v = values.base(rng, typ)
        label, value, want = values.spelling(rng, typ, v)
        while label in ('map', 'zip'):
            label, value, want = values.spelling(rng, typ, v)
        if rng.random() < .2:
            keep = value
            fields.append(cls(name, 1, lambda keep=keep: keep))
        else:
            fields.append(cls(name, rng.randint(0, 1), value))
        known.append((name, typ, ('canonical', want)))
    return Kind(lib.node.prototype('Built', fields), known, 'Built')


def parsed(rng):
    known, out = [], []
    e = gen.Emitter(rng, 'plain')
    for i in range(rng.randint(2, 6)):
        typ = rng.choice([t for t in gen.spec97.TYPES if t not in values.NODE_TYPES])
        ast = gen.gvalue(rng, typ, hard=False)
        out.append((typ, 'f%d' % i, ast))
        known.append(('f%d' % i, typ, ast))
    p = gen.Proto('P')
    for typ, name, ast in out:
        p.iface.append(gen.Iface(rng.choice(['field', 'exposedField']), typ, name, ast))
    e.w('PROTO')
    e.w('P')
    e.p('[')
    for i in p.iface:
        e.decl(i, None)
    e.p(']')
    for w in '{', None, '{', '}', '}':
        e.p(w) if w else e.w('Group')
    text = '#VRML V2.0 utf8\n' + e.text() + '\nP { } P { }\n'
    sg = lib.parse(text)
    k = Kind(type(sg.children[0]), known, 'P')
    k.first = list(sg.children)
    k.keep = sg
    return k


def mutate(rng, v):
    """Change a stored value in place; False when it cannot be"""
    if isinstance(v, np.ndarray):
        if not v.size:
            return False
        v.flat[rng.randrange(v.size)] += 1
        if rng.random() < .5:
            v[...] = rng.choice([0, 3, 5])
        return True
    if isinstance(v, lib.olist.OList):
        v.append(lib.basenodes.Box())
        return True
    if isinstance(v, list):
        v.append('changed')
        if rng.random() < .5:
            v[0] = 'other'
        return True
    return False


def run_case(kind, index, rng, rec, ctx):
    if kind == 'catalogue':
        return catalogue(sorted(NODES)[index], rec)
    make = {'standard': standard, 'proto': built, 'parsed': parsed}[kind]
    kinds = [make(rng) for _ in range(rng.randint(1, 2))]
    pool = []         # (kind, node, {field: rep})
    for k in kinds:
        for o in getattr(k, 'first', ()):
            pool.append((k, o, {}))
        pool.append((k, k.cls(), {}))
    trail = []
    for step in range(rng.randint(8, 25)):
        k, o, model = rng.choice(pool)
        f, typ, default = rng.choice(k.fields)
        what = '%s.%s' % (k.label, f)
        op = rng.choice(['read', 'read', 'mutate', 'mutate', 'mutate', 'new', 'delete', 'assign', 'default', 'repr'])
        if op in ('read', 'mutate'):
            v = getattr(o, f)
            if f not in model:
                p = k.check_default(f, typ, default, v)
                rec.require(p is None, 'default:' + typ, 'unset %s reads %r: %s' % (what, v, p), '\n'.join(trail))
                rec.count('defaults_read')
            rec.require(getattr(o, f) is v or not isinstance(v, (np.ndarray, list)), 'default-not-kept', 'reading %s twice gives two values' % what)
            model[f] = flow.rep(v)
            if op == 'mutate':
                if not mutate(rng, v):
                    continue
                model[f] = flow.rep(v)
                rec.count('changes_in_place')
        elif op == 'new':
            o = k.cls()
            pool.append((k, o, {}))
            for g, t, d in k.fields:
                v = getattr(o, g)
                p = k.check_default(g, t, d, v)
                rec.require(p is None, 'default-of-new-node:' + t, 'the unset %s of a new %s reads %r: %s' % (g, k.label, v, p), '\n'.join(trail))
                pool[-1][2][g] = flow.rep(v)
                rec.count('defaults_read')
        elif op == 'delete':
            if typ == 'MFNode' or f not in o.__dict__:
                continue
            delattr(o, f)
            model.pop(f, None)
            v = getattr(o, f)
            p = k.check_default(f, typ, default, v)
            rec.require(p is None, 'default-after-delete:' + typ, '%s reads %r once its value is deleted: %s' % (what, v, p), '\n'.join(trail))
            model[f] = flow.rep(v)
            rec.count('deletions')
        elif op == 'assign':
            v = [lib.basenodes.Group()] if typ == 'MFNode' else lib.basenodes.Box() if typ == 'SFNode' else values.spelling(rng, typ, values.base(rng, typ))[1]
            setattr(o, f, v)
            model[f] = flow.rep(getattr(o, f))
        elif op == 'default':
            lib.getField(k.cls, f).getDefault()
            lib.getField(o, f).fget(o)
            if f not in model:
                p = k.check_default(f, typ, default, getattr(o, f))
                rec.require(p is None, 'default:' + typ, 'unset %s reads %r: %s' % (what, getattr(o, f), p), '\n'.join(trail))
            model[f] = flow.rep(getattr(o, f))
        else:
            repr(o), str(o)
        trail.append('%s %s of node %d' % (op, what, [x for _, x, _ in pool].index(o)))
        # every other node as it was
        for k2, o2, m2 in pool:
            for g, t, d in k2.fields:
                if g in m2:
                    got = flow.rep(o2.__dict__.get(g))
                    rec.require(got == m2[g], 'changed-elsewhere:' + t, '%s: %s of node %d became %r' % (trail[-1], g, [x for _, x, _ in pool].index(o2), o2.__dict__.get(g)), '\n'.join(trail))
                elif g in o2.__dict__:
                    p = k2.check_default(g, t, d, o2.__dict__[g])
                    rec.require(p is None, 'changed-elsewhere:' + t, '%s: unset %s of node %d became %r: %s' % (trail[-1], g, [x for _, x, _ in pool].index(o2), o2.__dict__[g], p), '\n'.join(trail))
                    m2[g] = flow.rep(o2.__dict__[g])
                rec.count('values_watched')
    seen = {}
    for k, o, m in pool:
        for g, t, d in k.fields:
            v = o.__dict__.get(g)
            if isinstance(v, (np.ndarray, list)):
                base = v
                while isinstance(base, np.ndarray) and isinstance(base.base, np.ndarray):
                    base = base.base
                rec.require(id(base) not in seen, 'shared-value:' + t, '%s.%s and %s share one value' % (k.label, g, seen.get(id(base))))
                seen[id(base)] = '%s.%s' % (k.label, g)
    rec.nontrivial(kind, index, trail)
    if index < 2:
        rec.sample('; '.join(trail))


def catalogue(name, rec):
    """The standard node against the standard"""
    spec = NODES[name]
    cls = lib.basenamespaces.basePrototypes.get(name)
    rec.require(cls is not None and lib.protoName(cls) == name and lib.builtin(cls), 'no-node:' + name, 'no node type %s' % name)
    fields = {f.name: f for f in lib.getFields(cls) if f.name not in SKIP}
    events = {e.name: e for e in lib.getFields(cls, 1)}
    o = cls()
    for f, (exposed, typ, default) in spec.fields.items():
        fld = fields.pop(f, None)
        rec.require(fld is not None, 'no-field:%s.%s' % (name, f), 'the standard has %s.%s' % (name, f))
        rec.check(fld.typeName() == typ, 'field-type:%s.%s' % (name, f), '%s, the standard says %s' % (fld.typeName(), typ))
        rec.check(bool(fld.exposure) == exposed, 'field-exposure:%s.%s' % (name, f), 'exposed %r, the standard says %r' % (fld.exposure, exposed))
        p = Kind(cls, [], name).check_default(f, typ, default, getattr(o, f))
        rec.check(p is None, 'default:%s.%s' % (name, f), 'reads %r: %s' % (getattr(o, f), p))
        rec.check(lib.getField(cls, f) is fld and getattr(cls, f) is fld, 'get-field:%s.%s' % (name, f), 'getField gives %r' % lib.getField(cls, f))
        rec.count('standard_fields')
    extra = [f for f in fields if name != 'PointSet']
    rec.check(not extra, 'extra-fields:' + name, 'fields %r are not in the standard' % extra)
    for e, (direction, typ) in spec.events.items():
        ev = events.pop(e, None)
        rec.require(ev is not None, 'no-event:%s.%s' % (name, e), 'the standard has the event %s.%s' % (name, e))
        rec.check(ev.typeName() == typ, 'event-type:%s.%s' % (name, e), '%s, the standard says %s' % (ev.typeName(), typ))
        rec.check(bool(ev.direction) == (direction == 'out'), 'event-direction:%s.%s' % (name, e), 'direction %r, the standard says %s' % (ev.direction, direction))
        rec.count('standard_events')
    rec.check(not events, 'extra-events:' + name, 'events %r are not in the standard' % sorted(events))
    rec.nontrivial(name)
