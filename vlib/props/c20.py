"""C20: weak containers behave as plain ones from which the dead items are taken out."""
import gc
import weakref

from .. import lib
from ..rec import Violation

from vrml import weaklist, weaktuple, weakkeydictfix

CLEANUP_EVERY = 200


def plan(tier, mode):
    k = 1 if tier == 'quick' else 25
    return [('list', 900 * k), ('tuple', 400 * k), ('dict', 400 * k)]


class Item:
    """Equal when the number is equal: not the same as being identical"""

    def __init__(self, n):
        self.n = n

    def __eq__(self, other):
        return isinstance(other, Item) and self.n == other.n

    def __lt__(self, other):
        return self.n < other.n

    def __le__(self, other):
        return self.n <= other.n

    def __gt__(self, other):
        return self.n > other.n

    def __ge__(self, other):
        return self.n >= other.n

    def __hash__(self):
        return hash(self.n)

    def __repr__(self):
        return 'Item(%d)' % self.n


class Pool:
    """Holds the items; the model lists hold them by serial number only"""

    def __init__(self, rng, rec):
        self.rng, self.rec = rng, rec
        self.live, self.next, self.cyclic = {}, 0, set()

    def new(self):
        self.next += 1
        k = self.next
        o = self.live[k] = Item(self.rng.randint(0, 6))
        o.serial = k
        if self.rng.random() < .15:
            o.me = o                          # only the collector gets these
            self.cyclic.add(k)
        return k

    def some(self, n=None):
        if self.rng.random() < .3 or not self.live:
            return self.new()
        return self.rng.choice(sorted(self.live))

    def kill(self, k, data=None):
        ref = weakref.ref(self.live.pop(k))
        if k in self.cyclic:
            gc.collect()
            self.rec.count('collected_by_gc')
        self.rec.count('deaths')
        if ref() is not None:
            gc.collect()
            if ref() is not None:
                raise Violation('kept-alive', 'an item which only weak containers hold is alive', data)

    def spelled(self, ks):
        """The items in some kind of sequence, some as weak references"""
        items = [self.live[k] if self.rng.random() < .85 else weakref.ref(self.live[k]) for k in ks]
        j = self.rng.randrange(5)
        self.rec.count('given_%d' % j)
        return [items, tuple(items), iter(items), (x for x in items), weaklist.WeakList(items)][j] if j != 4 else weaklist.WeakList(items)


def serials(seq, what, trail):
    out = []
    for o in seq:
        if not isinstance(o, Item):
            raise Violation('not-an-item:' + what, '%s gives %r' % (what, o), '\n'.join(trail))
        out.append(o.serial)
    return out


def outcome(f):
    try:
        return 'ok', f()
    except (IndexError, ValueError, TypeError) as exc:
        return 'raised', type(exc).__name__


def check(w, model, pool, rng, rec, trail):
    data = '\n'.join(trail)
    items = [pool.live[k] for k in model]

    def same(what, got, want):
        rec.count('compared')
        if got != want:
            raise Violation('differs:' + what, '%s gives %s, of the live items it is %s' % (what, got, want), data)

    same('len', len(w), len(model))
    same('iteration', serials(w, 'iteration', trail), model)
    same('get', serials(w.get(), 'get', trail), model)
    same('bool', bool(w), bool(model))
    for _ in range(3):
        i = rng.randint(-len(model) - 2, len(model) + 1)
        a, b = outcome(lambda: w[i].serial), outcome(lambda: model[i])
        same('item', a, b)
        far = len(model) + 2 if len(model) > 9 and rng.random() < .6 else 7
        s = slice(*[rng.choice([None, rng.randint(-far, far)]) for _ in range(2)] + [rng.choice([None, 1, 2, -1, -2])])
        same('slice', serials(w[s], 'slice', trail), model[s])
    probe = rng.choice(items) if items and rng.random() < .6 else Item(rng.randint(0, 6))
    same('in', probe in w, probe in items)
    same('count', w.count(probe), items.count(probe))
    same('index', outcome(lambda: w.index(probe)), outcome(lambda: items.index(probe)))
    odd = rng.choice([None, 5, 'x', (), probe.n])       # nothing there can be a weak reference to these
    same('in', odd in w, False)
    same('count', w.count(odd), 0)
    same('index', outcome(lambda: w.index(odd)), ('raised', 'ValueError'))
    same('remove', outcome(lambda: w.remove(odd)), ('raised', 'ValueError'))
    same('reversed', serials(reversed(w), 'reversed', trail), model[::-1])
    other = list(items)
    if other and rng.random() < .5:
        other[rng.randrange(len(other))] = Item(rng.randint(0, 6))
    if rng.random() < .3:
        other = other[:-1]
    o = other if rng.random() < .6 else weaklist.WeakList(other)
    for name, got, want in (('==', w == o, items == other), ('!=', w != o, items != other), ('<', w < o, items < other), ('<=', w <= o, items <= other), ('>', w > o, items > other), ('>=', w >= o, items >= other),
                            ('reflected ==', o == w, other == items)):
        same('comparison ' + name, bool(got), want)
    same('repr', repr(w), 'WeakList( %r )' % (items,))


def list_case(rng, rec):
    pool = Pool(rng, rec)
    trail = []
    big = rng.random() < .04
    rec.count('large', big)
    lists = []          # (WeakList, model list of serials)

    def make():
        ks = [pool.some() for _ in range(rng.choice([20, 40, 90]) if big and not lists else rng.randint(0, 5))]
        trail.append('new %s' % ks)
        lists.append((weaklist.WeakList(pool.spelled(ks)) if ks or rng.random() < .5 else weaklist.WeakList(), list(ks)))

    def kill(k):
        trail.append('death of %d' % k)
        before = [len(w) for w, m in lists]
        pool.kill(k, '\n'.join(trail))
        for w, m in lists:
            n = m.count(k)
            rec.count('died_in_a_list', n)
            rec.count('died_twice_in_a_list', n > 1)
            m[:] = [x for x in m if x != k]

    make()
    for step in range(rng.randint(8, 25)):
        w, m = rng.choice(lists)
        op = rng.choice(['append', 'insert', 'extend', 'iadd', 'set', 'setslice', 'del', 'delslice', 'pop', 'remove', 'sort', 'sortf', 'reverse', 'death', 'death', 'death', 'new', 'imul', 'add', 'radd', 'mul', 'copy', 'during',
                         'during-sort', 'clear', 'drop', 'many'])
        trail.append('%s on %s' % (op, m))
        rec.count('op_' + op)
        data = '\n'.join(trail)
        k = pool.some()
        item = pool.live[k] if rng.random() < .85 else weakref.ref(pool.live[k])
        ks = [pool.some() for _ in range(rng.randint(0, 4))]
        i = rng.randint(-len(m) - 1, len(m) + 1)
        far = len(m) + 2 if len(m) > 9 and rng.random() < .5 else 5
        s = slice(*[rng.choice([None, rng.randint(-far, far)]) for _ in range(2)] + [rng.choice([None, None, 1, 2, -1])])
        a = b = None
        if op == 'append':
            a, b = outcome(lambda: w.append(item)), outcome(lambda: m.append(k))
        elif op == 'insert':
            a, b = outcome(lambda: w.insert(i, item)), outcome(lambda: m.insert(i, k))
        elif op == 'extend':
            if rng.random() < .1:
                a, b = outcome(lambda: w.extend(w)), outcome(lambda: m.extend(list(m)))
            else:
                a, b = outcome(lambda: w.extend(pool.spelled(ks))), outcome(lambda: m.extend(ks))
        elif op == 'iadd':
            v = w
            v += pool.spelled(ks)
            m += ks
            if v is not w:
                raise Violation('differs:+=', '+= makes another list', data)
            v = None
        elif op == 'set':
            a, b = outcome(lambda: w.__setitem__(i, item)), outcome(lambda: m.__setitem__(i, k))
        elif op == 'setslice':
            a, b = outcome(lambda: w.__setitem__(s, pool.spelled(ks))), outcome(lambda: m.__setitem__(s, ks))
        elif op == 'del':
            a, b = outcome(lambda: w.__delitem__(i)), outcome(lambda: m.__delitem__(i))
        elif op == 'delslice':
            a, b = outcome(lambda: w.__delitem__(s)), outcome(lambda: m.__delitem__(s))
        elif op == 'pop':
            a, b = (outcome(lambda: w.pop().serial), outcome(lambda: m.pop())) if rng.random() < .5 else (outcome(lambda: w.pop(i).serial), outcome(lambda: m.pop(i)))
        elif op == 'remove':
            probe = pool.live[k]
            items = [pool.live[x] for x in m]
            a = outcome(lambda: w.remove(probe))
            b = outcome(lambda: m.__delitem__(items.index(probe)))
            del items, probe
        elif op == 'sort':
            a, b = outcome(lambda: w.sort()), outcome(lambda: m.sort(key=lambda x: pool.live[x].n))
        elif op == 'sortf':
            a, b = outcome(lambda: w.sort(lambda x, y: y.n - x.n)), outcome(lambda: m.sort(key=lambda x: -pool.live[x].n))
        elif op == 'during-sort':
            # the other lists lose an item while this one is sorted
            item = None
            dead = [x for x in pool.live if x not in m]
            if dead:
                d = rng.choice(dead)
                done = []

                def compare(x, y):
                    if not done:
                        done.append(kill(d))
                    return x.n - y.n
                a, b = outcome(lambda: w.sort(compare)), outcome(lambda: m.sort(key=lambda x: pool.live[x].n))
        elif op == 'reverse':
            a, b = outcome(lambda: w.reverse()), outcome(lambda: m.reverse())
        elif op == 'clear':
            if rng.random() < .3:
                a, b = outcome(lambda: w.clear()), outcome(lambda: m.clear())
        elif op == 'death' and pool.live:
            item = None
            kill(rng.choice(sorted(pool.live)) if rng.random() < .4 or not m else rng.choice(m))
        elif op == 'many' and pool.live:
            # a cycle of items of several lists dies in one collection
            item = None
            ring = rng.sample(sorted(pool.live), min(len(pool.live), rng.randint(2, 4)))
            for x, y in zip(ring, ring[1:] + ring[:1]):
                pool.live[x].ring = pool.live[y]
            trail.append('death of the ring %s' % ring)
            for x in ring:
                del pool.live[x]
            gc.collect()
            rec.count('deaths', len(ring))
            for mm in [x[1] for x in lists]:
                mm[:] = [x for x in mm if x not in ring]
        elif op == 'new' and len(lists) < 4:
            make()
        elif op == 'drop' and len(lists) > 1:
            j = rng.randrange(len(lists))
            r = weakref.ref(lists[j][0])
            w = None
            del lists[j]
            if r() is not None:
                gc.collect()
                if r() is not None:
                    raise Violation('list-kept-alive', 'a WeakList is kept alive by its items', data)
            rec.count('lists_dropped')
        elif op == 'imul':
            n = rng.randint(-1, 3)
            if len(m) * n < 40:
                w *= n
                m *= n
        elif op in ('add', 'radd', 'mul', 'copy'):
            more = [pool.live[x] for x in ks]
            if rng.random() < .3:
                more = weaklist.WeakList(more)
            n = rng.randint(-1, 3)
            f = {'add': lambda: w + more, 'radd': lambda: more + w, 'mul': lambda: w * n if ks else n * w, 'copy': lambda: w.copy()}[op]
            want = {'add': m + ks, 'radd': ks + m, 'mul': m * n, 'copy': list(m)}[op]
            r = f()
            got = serials(r, op, trail)
            if got != want:
                raise Violation('differs:' + op, '%s gives %s, not %s' % (op, got, want), data)
            del more, r
        elif op == 'during':
            # items die while the list is iterated: as when they are removed while a list is iterated
            dying = sorted(set(rng.sample(m, min(len(m), rng.randint(0, 2)))))
            when = rng.randint(0, 3)
            item = None
            got, want, j = [], [], 0
            it = iter(w)
            for turn in range(99):
                if turn == when:
                    for d in dying:
                        kill(d)
                if j >= len(m):
                    want.append(None)
                else:
                    want.append(m[j])
                    j += 1
                try:
                    x = next(it)
                except StopIteration:
                    got.append(None)
                else:
                    if x is None:
                        raise Violation('not-an-item:iteration', 'iteration gives None', '\n'.join(trail))
                    got.append(x.serial)
                    x = None
                if got[-1] is None or want[-1] is None:
                    break
            it = None
            if got != want:
                raise Violation('differs:iteration', 'iterating while %s died gave %s, not %s' % (dying, got, want), '\n'.join(trail))
            rec.count('died_during_iteration', len(dying))
        item = None
        if a is not None and a != b:
            raise Violation('differs:' + op, '%s: %s, a list: %s' % (op, a, b), data)
        for w, m in lists:
            check(w, m, pool, rng, rec, trail)
        w = None
    rec.maximum('list_length', max(len(m) for _, m in lists))
    rec.nontrivial(tuple(trail))
    rec.sample('; '.join(trail))


def tuple_case(rng, rec):
    pool = Pool(rng, rec)
    ks = [pool.some() for _ in range(rng.randint(0, 6) if rng.random() < .96 else rng.randint(20, 90))]
    w = weaktuple.WeakTuple(pool.spelled(ks))
    trail = [repr(ks)]
    for step in range(rng.randint(2, 6)):
        gone = [k for k in ks if k not in pool.live]
        data = '\n'.join(trail)

        def same(what, f, want):
            rec.count('tuple_compared')
            try:
                got = f()
            except ReferenceError:
                got = 'ReferenceError'
                rec.count('reference_errors')
            except IndexError:
                got = 'IndexError'
            if got != want:
                raise Violation('tuple-differs:' + what, '%s of %s with %s dead gives %s, not %s' % (what, ks, gone, got, want), data)

        if len(w) != len(ks):
            raise Violation('tuple-differs:len', 'len %d of %s' % (len(w), ks), data)
        same('valid', lambda: bool(w.valid()), not gone)
        same('list', lambda: serials(list(w), 'iteration', trail), 'ReferenceError' if gone else ks)
        same('tuple', lambda: serials(tuple(w), 'iteration', trail), 'ReferenceError' if gone else ks)
        for i in range(-len(ks) - 1, len(ks) + 1):
            want = 'IndexError' if not -len(ks) <= i < len(ks) else ks[i] if ks[i] in pool.live else 'ReferenceError'
            same('item', lambda: w[i].serial, want)
        for _ in range(4):
            s = slice(*[rng.choice([None, rng.randint(-7, 7)]) for _ in range(2)] + [rng.choice([None, 1, 2, -1])])
            same('slice', lambda: serials(w[s], 'slice', trail), 'ReferenceError' if set(ks[s]) & set(gone) else ks[s])
        # membership is identity; the search may end before it meets a dead item
        for k in rng.sample(sorted(pool.live), min(3, len(pool.live))):
            before = ks[:ks.index(k)] if k in ks else ks
            dead_first = bool(set(before) & set(gone))
            same('in', lambda: pool.live[k] in w, 'ReferenceError' if dead_first else k in ks)
            same('index', lambda: w.index(pool.live[k]), 'ReferenceError' if dead_first else ks.index(k) if k in ks else -1)
            same('count', lambda: w.count(pool.live[k]), 'ReferenceError' if gone else ks.count(k))
        more = tuple(pool.live[k] for k in sorted(pool.live)[:2])
        same('+', lambda: serials(w + more, '+', trail), 'ReferenceError' if gone else ks + [x.serial for x in more])
        same('+ WeakTuple', lambda: serials(w + weaktuple.WeakTuple(more), '+', trail), 'ReferenceError' if gone else ks + [x.serial for x in more])
        if not gone:
            items = [pool.live[k] for k in ks]
            other = list(items)
            if other and rng.random() < .5:
                other[rng.randrange(len(other))] = Item(rng.randint(0, 6))
            o = other if rng.random() < .5 else weaktuple.WeakTuple(other)
            for name, got, want in (('==', w == o, items == other), ('!=', w != o, items != other), ('<', w < o, items < other), ('<=', w <= o, items <= other), ('>', w > o, items > other), ('>=', w >= o, items >= other)):
                rec.count('tuple_compared')
                if bool(got) != want:
                    raise Violation('tuple-differs:comparison', '%s: %s, of the items %s' % (name, got, want), data)
            items = o = other = None
        more = None
        left = [k for k in ks if k in pool.live] or sorted(pool.live)
        if left:
            k = rng.choice(left)
            trail.append('death of %d' % k)
            rec.count('died_in_a_tuple')
            pool.kill(k, '\n'.join(trail))
    rec.nontrivial('tuple', tuple(trail))


def dict_case(rng, rec):
    pool = Pool(rng, rec)
    trail = []
    model = {}             # serial -> value

    def find(k):
        """The serial of the key which is equal"""
        for x in model:
            if pool.live[x] == pool.live[k]:
                return x
        return None

    first = {pool.new(): object() for _ in range(rng.randint(0, 3) if rng.random() < .96 else rng.randint(20, 90))}
    start = {pool.live[k]: v for k, v in first.items()}
    w = weakkeydictfix.WeakKeyDictionary(start) if rng.random() < .7 else weakkeydictfix.WeakKeyDictionary()
    if len(w) or not start:
        for k, v in first.items():
            x = find(k)
            model[k if x is None else x] = v
    start = first = v = None
    for step in range(rng.randint(6, 25)):
        data = '\n'.join(trail)
        k = pool.some()
        x = find(k)
        op = rng.choice(['set', 'set', 'del', 'pop', 'setdefault', 'update', 'death', 'death', 'get', 'during'])
        trail.append('%s %d (%d) %s' % (op, k, pool.live[k].n, sorted(model)))
        v = object()
        if op == 'set':
            w[pool.live[k]] = v
            model[k if x is None else x] = v
        elif op == 'del':
            try:
                del w[pool.live[k]]
                got = True
            except KeyError:
                got = False
            if got != (x is not None):
                raise Violation('dict-differs:del', 'deleted: %s, present: %s' % (got, x is not None), data)
            model.pop(x, None)
        elif op == 'pop':
            got = w.pop(pool.live[k], None)
            want = model.pop(x, None)
            if got is not want:
                raise Violation('dict-differs:pop', '', data)
        elif op == 'setdefault':
            got = w.setdefault(pool.live[k], v)
            want = model.setdefault(k if x is None else x, v)
            if got is not want:
                raise Violation('dict-differs:setdefault', '', data)
        elif op == 'update':
            ks = list({pool.live[j].n: j for j in [pool.some() for _ in range(3)]}.values())
            more = {pool.live[j]: object() for j in ks}
            w.update(more)
            for j in ks:
                y = find(j)
                model[j if y is None else y] = more[pool.live[j]]
            more = None
        elif op == 'death':
            k = rng.choice(sorted(model)) if model and rng.random() < .7 else k
            pool.kill(k, data)
            rec.count('died_in_a_dict', k in model)
            model.pop(k, None)
        elif op == 'during' and model:
            # a key dies while the dictionary is iterated
            it = iter(w)
            key = next(it)
            d = rng.choice([j for j in model if j != key.serial] or [None])
            if d is not None:
                pool.kill(d, data)
                model.pop(d)
                rec.count('died_during_iteration_of_dict')
            seen = [key.serial] + [o.serial for o in it]
            if sorted(seen) != sorted(model):
                raise Violation('dict-differs:iteration', 'iterating while a key died gave %s of %s' % (sorted(seen), sorted(model)), data)
            key = it = None
        v = None
        # everything as the model says
        items = {pool.live[j]: val for j, val in model.items()}
        if len(w) != len(model):
            raise Violation('dict-differs:len', 'len %d with %d live keys' % (len(w), len(model)), data)
        if dict(w.items()) != items or {o.serial for o in w} != set(model) or set(w.keys()) != set(items) or sorted(map(id, w.values())) != sorted(map(id, items.values())):
            raise Violation('dict-differs:items', 'keys %s, not %s' % ([o.serial for o in w], sorted(model)), data)
        for j in sorted(pool.live):
            y = find(j)
            rec.count('dict_lookups')
            if (pool.live[j] in w) != (y is not None) or w.get(pool.live[j]) is not (None if y is None else model[y]):
                raise Violation('dict-differs:lookup', 'key %d' % j, data)
        items = None
    rec.nontrivial('dict', tuple(trail))


def run_case(kind, index, rng, rec, ctx):
    gc.disable()
    try:
        {'list': list_case, 'tuple': tuple_case, 'dict': dict_case}[kind](rng, rec)
    finally:
        gc.enable()
