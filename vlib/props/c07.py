"""C07: every accepted spelling of a value is stored in the one canonical form of its field type."""
import copy
import numpy as np
from .. import lib, values
from ..rec import Violation
from ..spec97 import NODES

CLEANUP_EVERY = 200
STATE = {}


def plan(tier, mode):
    k = 1 if tier == 'quick' else 20
    return [('proto', 1500 * k), ('standard', 700 * k), ('nodes', 300 * k)]


def setup(ctx):
    fields = []
    for t in sorted(values.ALL) + ['SFNode', 'MFNode']:
        cls = values.field_class(t)
        fields.append(cls('f' + t, 1))
        fields.append(cls('g' + t, 0))
    STATE['proto'] = lib.node.prototype('EveryType', fields)
    byt = {}
    for n, spec in NODES.items():
        for f, (x, t, d) in spec.fields.items():
            byt.setdefault(t, []).append((n, f))
    STATE['byt'] = byt


def assign(rng, cls, name, value):
    """(node, label) after assigning in one of the ways there are"""
    k = rng.randrange(6)
    f = lib.getField(cls, name)
    if k == 0:
        return cls(**{name: value}), 'constructor'
    o = cls()
    if k == 1:
        setattr(o, name, value)
        return o, 'setattr'
    if k == 2:
        got = f.fset(o, value)
        if got is not getattr(o, name):
            raise Violation('fset-result', '%s.fset returned %r, stored is %r' % (f, got, getattr(o, name)))
        return o, 'fset'
    if k == 3:
        f.fset(o, value, notify=0)
        return o, 'fset-quiet'
    if k == 4:
        getattr(o, name)      # the default was read, or set to something else before
        setattr(o, name, value)
        return o, 'after-read'
    f.__set__(o, value)
    return o, '__set__'


def frozen(v):
    """A copy of an input to compare with later"""
    if isinstance(v, np.ndarray):
        return np.array(v)
    if isinstance(v, (list, tuple)):
        return copy.deepcopy(v)
    return None


def same(a, b):
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and a.dtype == b.dtype and bool(np.array_equal(a, b))
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def scramble(v):
    """Change an input in place"""
    if isinstance(v, np.ndarray):
        if v.flags.writeable and v.size:
            v[...] = 77
            return True
    elif isinstance(v, list):
        done = False
        for x in v:
            done = scramble(x) or done
        v.append('x')
        v.reverse()
        return True
    return False


def run_case(kind, index, rng, rec, ctx):
    if kind == 'nodes':
        return nodes(index, rng, rec)
    for _ in range(12):
        if kind == 'proto':
            typ = rng.choice(sorted(values.ALL))
            cls, name = STATE['proto'], rng.choice('fg') + typ
        else:
            typ = rng.choice([t for t in values.VRML97 if t not in values.NODE_TYPES])
            n, name = rng.choice(STATE['byt'].get(typ) or [('Group', 'bboxSize')])
            cls = lib.basenamespaces.basePrototypes[n]
            typ = lib.getField(cls, name).typeName()
        v = values.base(rng, typ)
        label, value, want = values.spelling(rng, typ, v)
        before = frozen(value)
        shown = repr(value)[:300]
        what = '%s:%s' % (typ, label)
        try:
            o, way = assign(rng, cls, name, value)
        except Violation:
            raise
        except Exception as exc:
            raise Violation('refused:' + what, '%s.%s = %s: %s: %s' % (cls.__name__, name, shown, type(exc).__name__, exc))
        got = getattr(o, name)
        p = values.is_canonical(typ, got, want)
        rec.require(p is None, 'not-canonical:' + what, '%s.%s = %s is %r: %s' % (cls.__name__, name, shown, got, p))
        rec.require(getattr(o, name) is got or typ in ('SFBool', 'SFInt32', 'SFFloat'), 'unstable-read:' + typ, 'reading %s twice gives two objects' % name)
        if before is not None:
            rec.require(same(value, before), 'input-changed:' + what, 'assigning %s changed it to %r' % (shown, value))
            if scramble(value):
                p = values.is_canonical(typ, getattr(o, name), want)
                rec.require(p is None, 'input-aliased:' + what, '%s.%s changed with the object assigned (%s): %s' % (cls.__name__, name, shown, p))
                rec.count('inputs_scrambled')
        # the stored value is itself a spelling of the value
        o2 = cls()
        setattr(o2, name, got)
        p = values.is_canonical(typ, getattr(o2, name), want)
        rec.require(p is None, 'not-idempotent:' + typ, 'assigning the stored value %r gives %r: %s' % (got, getattr(o2, name), p))
        if isinstance(got, (np.ndarray, list)) and len(got):
            rec.require(getattr(o2, name) is not got, 'shared-value:' + typ, 'two nodes store one %s' % type(got).__name__)
            scramble(getattr(o2, name))
            p = values.is_canonical(typ, getattr(o, name), want)
            rec.require(p is None, 'shared-value:' + typ, 'changing the value of one node in place changed the other: %s' % p)
        rec.count('way_' + way)
        rec.count('type_' + typ)
        rec.count('spelling_' + label)
        rec.count('values_stored')
        rec.nontrivial(typ, label, shown)
        if index < 3:
            rec.sample('%s.%s = %s' % (cls.__name__, name, shown))


def nodes(index, rng, rec):
    made = [rng.choice([lib.basenodes.Group, lib.basenodes.Box, lib.basenodes.Transform])() for _ in range(rng.randint(0, 5))]
    cls, name = (STATE['proto'], rng.choice(['fMFNode', 'gMFNode'])) if rng.random() < .5 else rng.choice(
        [(lib.basenodes.Group, 'children'), (lib.basenodes.LOD, 'level'), (lib.basenodes.Switch, 'choice')])
    k = rng.randrange(6)
    if k == 0:
        value = list(made)
    elif k == 1:
        value = tuple(made)
    elif k == 2:
        value = lib.olist.OList(made)
    elif k == 3:
        value = map(lambda n: n, made)
    elif k == 4 and not made:
        value = rng.choice([None, [], ()])
    else:
        made = made[:1] or [lib.basenodes.Group()]
        value = made[0]
    label = type(value).__name__ if not isinstance(value, lib.Node) else 'node'
    o, way = assign(rng, cls, name, value)
    got = getattr(o, name)
    ok = isinstance(got, lib.olist.OList) and len(got) == len(made) and all(a is b for a, b in zip(got, made))
    rec.require(ok, 'not-canonical:MFNode:' + label, '%s.%s is %r, assigned %r' % (cls.__name__, name, got, made))
    if isinstance(value, list):
        list.append(value, lib.basenodes.Box())
        rec.require(len(getattr(o, name)) == len(made), 'input-aliased:MFNode', '%s.%s changed with the list assigned' % (cls.__name__, name))
    o2 = cls()
    setattr(o2, name, got)
    rec.require(getattr(o2, name) is not got, 'shared-value:MFNode', 'two nodes store one list')
    rec.require(list(map(id, getattr(o2, name))) == list(map(id, made)), 'not-idempotent:MFNode', 'assigning the stored list gives %r' % (getattr(o2, name),))
    rec.count('type_MFNode')
    # one node
    cls, name = (STATE['proto'], rng.choice(['fSFNode', 'gSFNode'])) if rng.random() < .5 else rng.choice(
        [(lib.basenodes.Shape, 'geometry'), (lib.basenodes.Appearance, 'material'), (lib.basenodes.IndexedFaceSet, 'coord')])
    n = rng.choice([lib.NULL, lib.basenodes.Box(), lib.basenodes.Group()])
    value = rng.choice([n, n, [n], (n,), None if n is lib.NULL else n])
    o, way = assign(rng, cls, name, value)
    rec.require(getattr(o, name) is n, 'not-canonical:SFNode', '%s.%s is %r, assigned %r' % (cls.__name__, name, getattr(o, name), value))
    rec.count('type_SFNode')
    rec.count('values_stored', 2)
    rec.nontrivial('nodes', index, label, len(made))
