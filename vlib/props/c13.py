"""C13: cached data is served exactly as long as nothing it depends on has changed."""
import gc
import weakref
from .. import flow, gen, lib
from ..rec import Violation

CLEANUP_EVERY = 100
STATE = {}
FIELDS = ['SFFloat', 'SFVec3f', 'MFVec3f', 'MFString', 'SFNode', 'MFNode', 'SFString', 'MFInt32', 'SFBool', 'SFColor']


def plan(tier, mode):
    k = 1 if tier == 'quick' else 20
    return [('history', 1500 * k)]


def setup(ctx):
    STATE['proto'] = lib.node.prototype('Cached', [lib.field.newField('f' + t, t, 1) for t in FIELDS] + [lib.field.newField('g' + t, t, 0) for t in FIELDS] + [lib.field.newEvent('eSFFloat', 'SFFloat', 0)])


class Entry:
    def __init__(self, data, deps, exists):
        self.data, self.deps, self.exists = data, deps, exists


def run_case(kind, index, rng, rec, ctx):
    if rng.random() < .3:
        # the collector runs now and then, at any point
        threshold = gc.get_threshold()
        gc.set_threshold(rng.choice([1, 7, 30, 100, 300]))
        gc.enable()
        try:
            history(index, rng, rec)
        finally:
            gc.disable()
            gc.set_threshold(*threshold)
        rec.count('with_collector')
    elif rng.random() < .1:
        bystander(rng, rec)
    else:
        history(index, rng, rec)


def bystander(rng, rec):
    """Dead holders do not stand between the living ones and the changes"""
    threshold = gc.get_threshold()
    gc.set_threshold(rng.choice([1, 3, 7, 30, 100]))
    gc.enable()
    try:
        for _ in range(10):
            cache = lib.cache.Cache()
            watched, other = lib.basenodes.Sphere(), lib.basenodes.Box()
            old = []
            for _ in range(rng.randint(1, 4)):
                client = lib.basenodes.Group()
                c = rng.choice([cache, lib.cache.CACHE, lib.cache.Cache()])
                h = c.holder(client, 'old', rng.choice(['', 'k']))
                for _ in range(rng.randint(1, 2)):
                    h.depend(watched, 'radius')
                if rng.random() < .7:
                    h.depend(other)
                old.append((client, c))
            ref = weakref.ref(h)
            del h, client
            rng.shuffle(old)
            while len(old) > rng.randint(0, 1):
                del old[0]
                c = None
            h = cache.holder(watched, 'new', 'new')
            h.depend(watched, 'radius')
            del h
            if rng.random() < .5:
                del old[:]
                c = None
            watched.radius = rng.random()
            rec.require(cache.getData(watched, 'new', 'default') is None, 'stale-data:bystander', 'data of a living holder is served after the change')
            rec.count('bystanders')
    finally:
        gc.disable()
        gc.set_threshold(*threshold)


def history(index, rng, rec):
    cache = lib.cache
    caches = [cache.Cache(), cache.Cache(), cache.CACHE]
    pool = {}            # serial -> node
    model = {}           # serial -> {(cache number, key): Entry}
    routes = []          # [route, (serial, field), (serial, field)]
    old_ids = {}         # ids of collected nodes
    serial = [0]
    trail = []
    names = ['f' + t for t in FIELDS] + ['g' + t for t in FIELDS] + ['eSFFloat']
    bld = gen.Build(lib, rng)

    def fresh():
        n = STATE['proto']()
        serial[0] += 1
        pool[serial[0]] = n
        model[serial[0]] = {}
        if id(n) in old_ids:
            rec.count('ids_reused')
            rec.count('ids_reused_with_data', old_ids.pop(id(n)))
        for c in caches:
            rec.require(c.getHolder(n) is None and c.getData(n, 'a', 77) == 77 and c.get(id(n)) is None, 'data-of-another-node', 'a new node has cached data %r' % (c.get(id(n)),), '\n'.join(trail))
        return serial[0]

    def clear(node, name):
        """What a change of a field does"""
        hit = 0
        for entries in model.values():
            for e in entries.values():
                if (node, name) in e.deps and e.data is not None:
                    e.data = None
                    hit += 1
        rec.count('invalidations', hit)

    def reached(node, name):
        seen, todo = [], [(node, name)]
        while todo:
            for r, a, b in routes:
                if a == todo[0] and b not in seen:
                    seen.append(b)
                    todo.append(b)
            todo.pop(0)
        return seen

    big = rng.random() < .03
    rec.count('large', big)
    for _ in range(rng.randint(30, 60) if big else rng.randint(2, 5)):
        fresh()
    for step in range(rng.randint(80, 150) if big else rng.randint(12, 40)):
        op = rng.choice(['hold', 'hold', 'hold', 'hold', 'set', 'set', 'set', 'set', 'del', 'list', 'quiet', 'read', 'route', 'drop', 'drop', 'new', 'renew', 'drop-holder', 'churn'])
        if not pool:
            fresh()
        s = rng.choice(sorted(pool))
        n = pool[s]
        name = rng.choice(names)
        live = [x for e in model.values() for h in e.values() for x in h.deps if x[0] in pool]
        if live and op in ('set', 'del', 'list') and rng.random() < .6:
            s, name = rng.choice(live)
            n = pool[s]
        typ = name[1:]
        if op == 'hold':
            c = rng.randrange(len(caches))
            key = rng.choice(['', 'a', 'b', ('t', 1)])
            if (c, key) in model[s] and model[s][(c, key)].exists:
                continue
            data = rng.choice([object(), [1, 2], 'data', 5])
            holder = caches[c].holder(n, data, key) if rng.random() < .5 else cache.CacheHolder(n, data, key, caches[c])
            deps, exists = set(), set()
            for _ in range(rng.randint(0, 4)):
                d = s if rng.random() < .4 else rng.choice(sorted(pool))
                f = rng.choice(names)
                k = rng.random()
                if k < .15 and d != s:
                    holder.depend(pool[d])
                    exists.add(d)
                elif k < .3:
                    holder.depend(pool[d], lib.getField(pool[d], f))
                    deps.add((d, f))
                elif k < .4 and f[0] == 'f':
                    holder.depend(pool[d], rng.choice(['set_' + f, f + '_changed']))
                    deps.add((d, f))
                else:
                    holder.depend(pool[d], f)
                    deps.add((d, f))
            model[s][(c, key)] = Entry(data, deps, exists)
            rec.count('dependencies', len(deps) + len(exists))
            del holder
        elif op == 'set':
            if typ == 'SFNode':
                value = rng.choice([lib.NULL, lib.basenodes.Box(), lib.basenodes.Group()])
            elif typ == 'MFNode':
                value = [lib.basenodes.Group() for _ in range(rng.randint(0, 2))]
            else:
                value = flow.new_value(rng, typ, bld)[1]
                if name[0] == 'e':
                    value = 1.5
            if rng.random() < .3 and name in n.__dict__ and typ != 'MFNode':
                value = n.__dict__[name]       # an assignment all the same
            how = rng.randrange(3)
            if how and name[0] != 'e':
                lib.getField(n, name).fset(n, value)
            else:
                setattr(n, name, value)
            clear(s, name)
            for d in reached(s, name):
                clear(*d)
        elif op == 'del':
            if name not in n.__dict__ or typ == 'MFNode' or name[0] == 'e':
                continue
            delattr(n, name)
            clear(s, name)
            for d in reached(s, name):
                clear(*d)
        elif op == 'list':
            name = rng.choice(['fMFNode', 'gMFNode'])
            l = getattr(n, name)
            k = rng.randrange(4)
            if k == 0 or not l:
                l.append(lib.basenodes.Box())
            elif k == 1:
                del l[0]
            elif k == 2:
                l[0] = lib.basenodes.Group()
            else:
                l.clear()
            clear(s, name)
            for d in reached(s, name):
                clear(*d)
        elif op == 'quiet':
            if name[0] == 'e' or typ == 'MFNode':
                continue
            lib.getField(n, name).fset(n, getattr(STATE['proto'](), name), notify=0)
        elif op == 'read':
            for x in names[:-1]:
                getattr(n, x)
            repr(n), cache.getData(n)
        elif op == 'route':
            d = rng.choice(sorted(pool))
            f = rng.choice('fg') + typ
            if name[0] == 'e' or typ == 'MFNode':
                continue
            routes.append([lib.route.ROUTE(n, name, pool[d], f), (s, name), (d, f)])
        elif op == 'drop':
            if len(pool) < 2:
                continue
            routes[:] = [r for r in routes if s not in (r[1][0], r[2][0])]
            ref, i = weakref.ref(n), id(n)
            had = len(model[s])
            del pool[s], model[s]
            n = o = h = l = value = None
            live = None
            if ref() is not None:
                gc.collect()
            rec.require(ref() is None, 'client-kept-alive', 'a node with cached data is not collected', '\n'.join(trail))
            for c in caches:
                rec.require(c.get(i) is None, 'data-of-dead-node', 'the cache keeps the data of a collected node', '\n'.join(trail))
            old_ids[i] = had
            rec.count('nodes_collected')
            rec.count('nodes_collected_with_data', had > 0)
            for entries in model.values():
                for k in [k for k, e in entries.items() if s in e.exists]:
                    del entries[k]
                    rec.count('dropped_with_node')
            if rng.random() < .7:
                fresh()
        elif op == 'new':
            fresh()
        elif op == 'renew':
            have = sorted(model[s], key=repr)
            if not have:
                continue
            c, key = rng.choice(have)
            h = caches[c].getHolder(n, key)
            data = object()
            h.set(data)
            model[s][(c, key)].data = data
            rec.count('renewed')
        elif op == 'drop-holder':
            have = sorted(model[s], key=repr)
            if not have:
                continue
            c, key = rng.choice(have)
            h = caches[c].getHolder(n, key)
            h() if rng.random() < .5 else h(signal='x', sender=n)
            del h
            del model[s][(c, key)]
        else:
            # another cache goes away
            if len(caches) > 4:
                continue
            x = cache.Cache()
            h = cache.CacheHolder(n, 'other', '', x)
            h.depend(n, name)
            r = weakref.ref(h)
            del h, x
        trail.append('%s node %s %s' % (op, s, name))
        rec.count('op_' + op)
        # everything as the model says
        for m, entries in model.items():
            o = pool[m]
            for c in range(len(caches)):
                for key in ('', 'a', 'b', ('t', 1), 'never'):
                    e = entries.get((c, key))
                    got = caches[c].getData(o, key, 'default')
                    if e is None:
                        rec.require(got == 'default' and caches[c].getHolder(o, key) is None, 'data-from-nowhere', 'cache %d key %r of node %d gives %r without an entry' % (c, key, m, got), '\n'.join(trail))
                    elif e.data is None:
                        rec.require(got is None, 'stale-data:' + op, 'cache %d key %r of node %d gives %r though %r changed' % (c, key, m, got, sorted(e.deps)), '\n'.join(trail))
                    else:
                        rec.require(got is e.data, 'data-lost:' + op, 'cache %d key %r of node %d gives %r though none of %r changed' % (c, key, m, got, sorted(e.deps)), '\n'.join(trail))
                        rec.require(caches[c].getHolder(o, key).data is e.data, 'holder', 'the holder has other data')
                    rec.count('lookups')
                o2 = cache.getData(o, '', 'default')
                rec.require((2, '') in entries or o2 == 'default', 'global-getdata', 'getData gives %r' % (o2,))
    rec.nontrivial(index, trail)
    if index < 2:
        rec.sample('; '.join(trail))
    for c in caches:
        for s in list(pool):
            c.pop(id(pool[s]), None)
