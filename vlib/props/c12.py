"""C12: OList behaves as a list and reports each child added or removed, once the change is made."""
import gc
from .. import lib
from ..rec import Violation

CLEANUP_EVERY = 100
OList = lib.olist.OList
ADD, DEL, ADDP, DELP = OList.NEW_CHILD_EVT, OList.DEL_CHILD_EVT, OList.NEW_PARENT_EVT, OList.DEL_PARENT_EVT


def plan(tier, mode):
    k = 1 if tier == 'quick' else 20
    return [('plain', 1500 * k), ('sender', 500 * k), ('field', 900 * k)]


class Item:
    """Something to put into a list"""

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return 'i%d' % self.n


class Equal(Item):
    """One of several which are equal, but not the same"""

    def __eq__(self, other):
        return isinstance(other, Equal) and other.n % 2 == self.n % 2

    def __hash__(self):
        return self.n % 2


ISTEXT = """#VRML V2.0 utf8
PROTO Holds [ exposedField MFNode c [ Box {} ] ] { Group { children IS c } }
"""
ISPROTO = lib.parse(ISTEXT).getProto('Holds')


class Boom(Exception):
    pass


def breaking(items):
    yield from items
    raise Boom()


class Ears:
    def __init__(self, olist):
        self.log, self.sets, self.olist = [], [], olist
        lib.dispatcher.connect(self.hear, signal=lib.dispatcher.Any, sender=lib.dispatcher.Any)

    def hear(self, signal=None, sender=None, value=None, parent=None, **named):
        if signal in (ADD, DEL, ADDP, DELP):
            self.log.append((signal, sender, value if signal in (ADD, DEL) else parent, named, list(self.olist)))
        elif isinstance(signal, tuple) and signal[0] in ('set', 'route'):
            self.sets.append((signal, sender, named.get('subsignal'), named.get('subvalue'), value, list(self.olist)))

    def close(self):
        lib.dispatcher.disconnect(self.hear, signal=lib.dispatcher.Any, sender=lib.dispatcher.Any)


def rslice(rng, n, step=True):
    """A slice of a list of n, with odd ends and steps"""
    e = lambda: rng.choice([None, rng.randint(-n - 2, n + 2), rng.randint(0, n)])
    return slice(e(), e(), rng.choice([None, None, None, 1, 2, -1, 3, -2]) if step else None)


def same(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def change(rng, kind, length):
    """(name, function of a list and new items, needed items, dup) of one operation"""
    n = length
    i = rng.randint(-n - 1, n) if n else rng.randint(-1, 0)
    k = rng.randrange(20)
    sl = rslice(rng, n)
    sl1 = rslice(rng, n, False)
    form = rng.choice([list, tuple, iter, lambda x: (y for y in x), OList, reversed])
    if k == 0:
        return 'append', lambda l, new: l.append(new[0]), 1
    if k == 1:
        return 'insert', lambda l, new: l.insert(i, new[0]), 1
    if k == 2:
        return 'pop', lambda l, new: l.pop(), 0
    if k == 3:
        return 'pop-index', lambda l, new: l.pop(i), 0
    if k == 4:
        return 'remove', lambda l, new: l.remove(l[i]), 0
    if k == 5:
        return 'remove-missing', lambda l, new: l.remove(Item(-1)), 0
    if k == 6:
        return 'delitem', lambda l, new: l.__delitem__(i), 0
    if k in (7, 8):
        return 'delslice', lambda l, new: l.__delitem__(sl), 0
    if k == 9:
        return 'setitem', lambda l, new: l.__setitem__(i, new[0]), 1
    if k == 10:
        return 'setitem-same', lambda l, new: l.__setitem__(i, l[i]), 0
    if k in (11, 12):
        return 'setslice', lambda l, new: l.__setitem__(sl1, form(new)), rng.randint(0, 4)
    if k == 13:
        return 'setslice-step', lambda l, new: l.__setitem__(sl, form(new)), rng.choice([0, 1, 2, 3, len(range(*sl.indices(n)))])
    if k == 14:
        return 'extend', lambda l, new: l.extend(form(new)), rng.randint(0, 3)
    if k == 15:
        return 'iadd', lambda l, new: l.__iadd__(form(new)), rng.randint(0, 3)
    if k == 16:
        return 'imul', lambda l, new: l.__imul__(rng_mul), 0
    if k == 17:
        return 'clear', lambda l, new: l.clear(), 0
    if k == 18:
        return 'breaking', lambda l, new: (l.extend if i % 2 else lambda x: l.__setitem__(sl1, x))(breaking(new)), 2
    return rng.choice([('setslice-self', lambda l, new: l.__setitem__(slice(None), l), 0), ('setslice-rotated', lambda l, new: l.__setitem__(slice(None), l[1:] + l[:1]), 0),
                       ('setslice-reversed', lambda l, new: l.__setitem__(slice(None), l[::-1]), 0), ('reverse', lambda l, new: l.reverse(), 0),
                       ('sort', lambda l, new: l.sort(key=id), 0), ('extend-self', lambda l, new: l.extend(l), 0), ('setslice-keep-some', lambda l, new: l.__setitem__(slice(None), l[1:] + list(new)), 2)])


rng_mul = 1


def run_case(kind, index, rng, rec, ctx):
    global rng_mul
    serial = [0]
    equal = kind != 'field' and rng.random() < .3

    def new_item():
        serial[0] += 1
        if kind == 'field':
            return rng.choice([lib.basenodes.Group, lib.basenodes.Box, lib.basenodes.Shape])()
        cls = rng.choice([Equal, Equal, lib.basenodes.Group] if equal else [Item, lib.basenodes.Group])
        return cls(serial[0]) if issubclass(cls, Item) else cls()

    big = rng.random() < .02
    rec.count('large', big)
    start = [new_item() for _ in range(rng.choice([33, 70, 130, 260]) if big else rng.randint(0, 5))]
    dup = rng.random() < .25
    if dup and start:
        start.append(rng.choice(start))
    extra = {}
    keep = []
    if kind == 'field':
        cls, f = rng.choice([(lib.basenodes.Group, 'children'), (lib.basenodes.Switch, 'choice'), (TWO, 'one'), (TWO, 'two'), (lib.scenegraph.SceneGraph, 'children')])
        owner = cls()
        if rng.random() < .5:
            setattr(owner, f, start)
        elif rng.random() < .5:
            owner = cls(**{f: start})
        else:
            getattr(owner, f).extend(start)
        if cls is TWO:
            getattr(owner, 'one'), getattr(owner, 'two')
        for _ in range(rng.choice([0, 0, 0, 1, 2])):
            anew(rng, rec, owner, f, start)
        if rng.random() < .15:
            if rng.random() < .6:
                sg = lib.parse(ISTEXT + 'Holds { c [ %s ] }' % ' '.join(rng.choice(['Box { }', 'Group { }', 'Shape { }']) for _ in start))
                keep.append(sg)
                outer = sg.children[0]
                start = list(outer.c)
            else:
                outer = ISPROTO(**{'c': start} if rng.random() < .8 else {})
            owner, f, cls = rng.choice([(outer, 'c', ISPROTO), (lib.PrototypedNode.scenegraph.fget(outer).children[0], 'children', lib.basenodes.Group)])
            if getattr(outer, 'c') != start:
                setattr(outer, 'c', start)
            keep.append(outer)
            rec.count('lists_of_prototyped')
        l = getattr(owner, f)
        sender, extra = owner, {'field': lib.getField(owner, f)}
    else:
        l = OList(start)
        sender = l
        if kind == 'sender':
            owner = lib.basenodes.Group()
            extra = rng.choice([{}, {'tag': 5}])
            l.setSender(owner, **extra)
            sender = owner
    model = list(start)
    rec.require(isinstance(l, OList) and same(l, model), 'initial', '%r instead of %r' % (l, model))
    trail = ['%s %d' % (kind, len(model))]
    for step in range(rng.randint(3, 6) if big else rng.randint(5, 15)):
        if kind == 'sender' and rng.random() < .1:
            # without its sender the list speaks for itself
            del owner
            owner = None
            sender = None
            gc.collect(0)
            sender = l
        rng_mul = rng.choice([0, 1, 2, 3, -1])
        state = rng.getstate()
        name, op, need = change(rng, kind, len(model))
        if len(model) > ((400 if big else 24) if kind == 'field' else (600 if big else 100)):
            name, op, need = 'clear', lambda l, new: l.clear(), 0
        new = [new_item() for _ in range(need)]
        if dup and new and model and rng.random() < .4:
            new[0] = rng.choice(model)
        if kind == 'field' and rng.random() < .15:
            # the whole field
            name = 'assign'
            new = [new_item() for _ in range(rng.randint(0, 3))] + rng.sample(model, rng.randint(0, len(model)))
            op = lambda x, new: setattr(owner, f, list(new)) if x is l else x.__setitem__(slice(None), new)
        before = list(model)
        want = error = None
        try:
            want = op(model, new)
        except Exception as exc:
            error = type(exc)
        ears = Ears(l)
        got = raised = None
        try:
            got = op(l, new)
        except Exception as exc:
            raised = type(exc)
        finally:
            ears.close()
        what = '%s of %r with %r' % (name, before, new)
        trail.append(what[:300])
        rec.require(raised == error, 'error:' + name, '%s: %r instead of %r' % (what, raised, error), '\n'.join(trail))
        if error:
            model = before
            rec.require(same(l, before), 'changed-by-refused:' + name, '%s failed but left %r' % (what, l), '\n'.join(trail))
            rec.require(not ears.log, 'events-of-refused:' + name, '%s failed but sent %r' % (what, ears.log), '\n'.join(trail))
            rec.count('refused')
            continue
        rec.require(same(l, model) and type(l) is OList, 'contents:' + name, '%s gives %r instead of %r' % (what, l, model), '\n'.join(trail))
        if name in ('pop', 'pop-index'):
            rec.require(got is want, 'result:' + name, '%s returns %r instead of %r' % (what, got, want), '\n'.join(trail))
        if name in ('iadd', 'imul'):
            rec.require(got is l, 'result:' + name, '%s returns another list' % what)
        if kind == 'field':
            rec.require(getattr(owner, f) is l, 'list-replaced:' + name, '%s: the field has another list' % what)
            fld = extra['field']
            if keep:
                # the other list, which the field is one with, sends its own
                ears.log = [e for e in ears.log if e[1 if e[0] in (ADD, DEL) else 2] is owner]
            sets = [(sub, val) for signal, who, sub, val, value, content in ears.sets if who is owner and signal[1] is fld and signal[0] == 'set']
            due = [(signal, value) for signal, who, value, named, content in ears.log if signal in (ADD, DEL)] + ([(None, None)] if name == 'assign' else [])
            rec.require(len(sets) == len(due) and all(a[0] == b[0] and a[1] is b[1] for a, b in zip(sets, due)), 'field-events:' + name, '%s: the field sends %r, the list %r' % (what, sets, due), '\n'.join(trail))
            rec.require(all(value is l and same(content, model) for signal, who, sub, val, value, content in ears.sets if who is owner and signal[1] is fld), 'field-event-value:' + name, '%s: the field sends another list or too soon' % what, '\n'.join(trail))
            rec.count('field_events', len(due))
        events(rec, ears.log, name, what, before, list(model), l, sender, extra, trail)
        rec.count('op_' + name)
        rec.count('operations')
        reads(rng, rec, l, model)
    rec.nontrivial(kind, index, [t.split(' of ')[0] for t in trail])
    if index < 3:
        rec.sample('; '.join(trail))


def anew(rng, rec, owner, f, start):
    """The field is deleted: the list it had is a list by itself, and the next one like the first"""
    old = getattr(owner, f)
    way = rng.randrange(4)
    if way < 2:
        delattr(owner, f)
    else:
        gone = lib.getField(owner, f).fdel(owner, notify=way == 2)
        rec.require(gone is old, 'deleted-list-given', 'fdel gives %r instead of the list' % (gone,))
    ears = Ears(old)
    x = lib.basenodes.Group()
    try:
        old.append(x)
        old.remove(x)
    finally:
        ears.close()
    rec.require([(e[0], e[1]) for e in ears.log if e[0] in (ADD, DEL)] == [(ADD, old), (DEL, old)] and all(e[1] is old for e in ears.log if e[0] in (ADD, DEL)), 'deleted-list', 'a list deleted from its field sends %r' % [(e[0], e[1]) for e in ears.log])
    rec.require(not ears.sets, 'deleted-list-field', 'a list deleted from its field sends %r' % [e[:2] for e in ears.sets])
    setattr(owner, f, start)
    rec.count('lists_deleted')


def counts(items):
    out = {}
    for x in items:
        out[id(x)] = out.get(id(x), 0) + 1
    return out


def events(rec, log, name, what, before, after, l, sender, extra, trail):
    text = '\n'.join(trail)
    b, a = counts(before), counts(after)
    keep = {id(x): x for x in before + after}
    added = {k: a[k] - b.get(k, 0) for k in a if a[k] > b.get(k, 0)}
    removed = {k: b[k] - a.get(k, 0) for k in b if b[k] > a.get(k, 0)}
    got = {ADD: {}, DEL: {}, ADDP: {}, DELP: {}}
    for signal, who, value, named, content in log:
        if signal in (ADD, DEL):
            child, parent = value, who
        else:
            child, parent = who, value
        rec.require(id(child) in keep, 'event-of-stranger:' + name, '%s: %s with %r' % (what, signal, child), text)
        rec.require(parent is sender, 'event-sender:' + name, '%s: %s from %r instead of %r' % (what, signal, parent, sender), text)
        rec.require(named == extra, 'event-arguments:' + name, '%s: %s with %r instead of %r' % (what, signal, named, extra), text)
        rec.require(same(content, after), 'event-before-change:' + name, '%s: %s is sent while the list is %r' % (what, signal, content), text)
        got[signal][id(child)] = got[signal].get(id(child), 0) + 1
        rec.count('events')
    rec.require(got[ADD] == got[ADDP] and got[DEL] == got[DELP], 'parent-and-child-events:' + name, '%s: the list reports %r, the children %r' % (what, (got[ADD], got[DEL]), (got[ADDP], got[DELP])), text)
    dups = any(v > 1 for v in list(a.values()) + list(b.values()))
    if not dups or not name.startswith(('setslice', 'imul', 'breaking', 'assign')):
        for signal, due in ((ADD, added), (DEL, removed)):
            rec.require(got[signal] == due, 'events:%s:%s' % (signal, name), '%s: %s reported for %r, due for %r' % (
                what, signal, [(keep[k], n) for k, n in got[signal].items()], [(keep[k], n) for k, n in due.items()]), text)
        rec.count('exact_events')
        if dups:
            rec.count('exact_events_of_repeated')
        if any(isinstance(x, Equal) for x in before + after):
            rec.count('exact_events_of_equal')
    else:
        # slices with duplicates: whatever came or went entirely is reported, what was not touched is not
        for k in added:
            if k not in b:
                rec.require(got[ADD].get(k), 'unreported:new:' + name, '%s: %r came unreported' % (what, keep[k]), text)
        for k in removed:
            if k not in a:
                rec.require(got[DEL].get(k), 'unreported:del:' + name, '%s: %r went unreported' % (what, keep[k]), text)
        for k in got[ADD]:
            rec.require(k in a, 'false-report:new:' + name, '%s: %r is not in the list' % (what, keep[k]), text)
        for k in got[DEL]:
            rec.require(k in b, 'false-report:del:' + name, '%s: %r was not in the list' % (what, keep[k]), text)
        rec.count('duplicate_events')


def reads(rng, rec, l, model):
    ears = Ears(l)
    try:
        s = rslice(rng, len(model))
        ok = [len(l) == len(model), same(l[s], model[s]), same(list(l), model), l == model, not (l != model), same(list(reversed(l)), model[::-1]), same(l + [1], model + [1]), same(l * 2, model * 2),
              same(l.copy(), model), all(l[i] is model[i] for i in range(-len(model), len(model))), bool(l) == bool(model)]
        if model:
            x = rng.choice(model)
            ok += [x in l, l.index(x) == model.index(x), l.count(x) == model.count(x)]
        ok.append(Item(-2) not in l)
    finally:
        ears.close()
    rec.require(all(ok), 'read', 'reading %r differs from the list %r: %r' % (l, model, ok))
    rec.require(not ears.log, 'events-of-read', 'reading sent %r' % (ears.log,))
    rec.count('reads', len(ok))


TWO = lib.node.prototype('TwoLists', [lib.node.MFNode('one', 1), lib.node.MFNode('two', 0)])
