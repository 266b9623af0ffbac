"""C21: node paths are sequences of nodes by identity, know the paths made from them, and weak ones keep no node alive."""
import gc
import weakref

from .. import lib
from ..rec import Violation

CLEANUP_EVERY = 100


def plan(tier, mode):
    k = 1 if tier == 'quick' else 25
    return [('history', 2000 * k)]


class Alike(lib.basenodes.Transform):
    """All are equal: what matters to a path is which node it is"""
    PROTO = 'Transform'

    def __eq__(self, other):
        return isinstance(other, Alike)

    __hash__ = lib.basenodes.Transform.__hash__


class M:
    """Model of a path"""

    def __init__(self, cls, nodes, parent=None):
        self.cls, self.nodes, self.parent, self.children, self.broken = cls, nodes, parent, [], False


def run_case(kind, index, rng, rec, ctx):
    gc.disable()
    try:
        history(rng, rec)
    finally:
        gc.enable()


def history(rng, rec):
    S, W = lib.nodepath.NodePath, lib.nodepath.WeakNodePath
    b = lib.basenodes
    proto = lib.node.prototype('Plain', [])
    types = [b.Transform, b.Transform, Alike, Alike, b.Group, b.Shape, b.Material, proto]
    live, serial = {}, [0]
    paths, models = {}, {}
    trail = []

    def new():
        serial[0] += 1
        live[serial[0]] = n = rng.choice(types)()
        n.__dict__['serial'] = serial[0]
        return serial[0]

    def some():
        return new() if not live or rng.random() < .15 else rng.choice(sorted(live))

    def fail(what, message):
        raise Violation('differs:' + what, message, '\n'.join(trail))

    def serials(p, what):
        out = []
        for n in p:
            if not isinstance(n, lib.Node):
                fail(what, 'the path has %r in it' % (n,))
            out.append(n.serial)
        return out

    def add(p, m):
        if not isinstance(p, m.cls) or type(p) is not m.cls:
            fail('class', 'a %s comes of a %s' % (type(p).__name__, m.cls.__name__))
        serial[0] += 1
        paths[serial[0]], models[serial[0]] = p, m
        return serial[0]

    def spelled(ks):
        items = [live[k] for k in ks]
        j = rng.randrange(5)
        return [items, items, S(items), W(items), list(items)][j] if j else items

    def make():
        ks = [some() for _ in range(rng.choice([0, 1, 2, 3, 4]) if not big else rng.choice([3, 9, 17, 40]))]
        cls = rng.choice([S, W])
        v = spelled(ks)
        if rng.random() < .3:
            v = iter(v) if rng.random() < .5 else tuple(v)
        trail.append('%s(%s)' % (cls.__name__, ks))
        i = add(cls(v), M(cls, ks))
        if not ks and rng.random() < .5:
            paths[i] = cls()

    def drop_path(i):
        """The path goes, unless paths made from it keep it: children refer to parents"""
        trail.append('drop path %s' % models[i].nodes)
        r = weakref.ref(paths.pop(i))
        m = models.pop(i)
        kept = [j for j, x in models.items() if is_ancestor(i, j)]
        dropped[i] = m
        if not kept:
            if r() is not None:
                gc.collect()
            if r() is not None:
                fail('kept-alive', 'a dropped path is alive')
            rec.count('paths_collected')
        prune()

    dropped = {}

    def is_ancestor(i, j):
        m = models.get(j) or dropped[j]
        while m.parent is not None:
            if m.parent == i:
                return True
            m = models.get(m.parent) or dropped[m.parent]
        return False

    def prune():
        """Dropped paths stay while a living descendent refers to them"""
        for i in list(dropped):
            if not any(is_ancestor(i, j) for j in models):
                del dropped[i]

    def of(i):
        return models.get(i) or dropped.get(i)

    def drop_node(k):
        strong = any(k in m.nodes and m.cls is S for m in list(models.values()) + list(dropped.values()))
        trail.append('drop node %d' % k)
        r = weakref.ref(live.pop(k))
        if strong:
            if r() is None:
                fail('strong', 'a node of a NodePath was collected')
            live[k] = r()
            rec.count('nodes_kept_by_a_path')
            return
        if r() is not None:
            gc.collect()
        if r() is not None:
            fail('kept-alive', 'a node which only weak paths hold is alive')
        rec.count('nodes_collected')
        for m in list(models.values()) + list(dropped.values()):
            if k in m.nodes:
                rec.count('died_in_a_path')
            m.nodes = [x for x in m.nodes if x != k]

    big = rng.random() < .04
    rec.count('large', big)
    make()
    make()
    for step in range(rng.randint(10, 30)):
        op = rng.choice(['make', '+node', '+list', '+path', '+path', '+node', 'slice', 'common', 'invalidate', 'drop path', 'drop path', 'drop node', 'drop node'])
        if not paths:
            op = 'make'
        i = rng.choice(sorted(paths)) if paths else None
        rec.count('op_' + op)
        if op == 'make':
            make()
        elif op[0] == '+':
            m = models[i]
            if len(m.nodes) > (50 if big else 7) or len(paths) > 12:
                continue
            if op == '+node':
                k = some()
                ks = [k]
                p = paths[i] + live[k]
            elif op == '+list':
                ks = [some() for _ in range(rng.randint(0, 3))]
                p = paths[i] + [live[k] for k in ks]
            else:
                j = rng.choice(sorted(paths))
                ks = list(models[j].nodes)
                p = paths[i] + paths[j]
            trail.append('%s(%s) + %s (%s)' % (m.cls.__name__, m.nodes, ks, op))
            j = add(p, M(m.cls, m.nodes + ks, i))
            if p is paths[i]:
                fail('+', '+ gives the path itself')
            m.children.append(j)
            p = None
        elif op == 'slice':
            m = models[i]
            far = len(m.nodes) + 2 if big else 6
            s = slice(*[rng.choice([None, rng.randint(-far, far)]) for _ in range(2)] + [rng.choice([None, None, 1, 2, -1])])
            trail.append('%s[%s]' % (m.nodes, s))
            p = paths[i][s]
            if p is paths[i]:
                fail('slice', 'a slice is the path itself')
            add(p, M(m.cls, m.nodes[s]))
            p = None
        elif op == 'common':
            j = rng.choice(sorted(paths))
            m, n = models[i], models[j]
            other = paths[j] if rng.random() < .7 else [live[k] for k in n.nodes]
            want = []
            for x, y in zip(m.nodes, n.nodes):
                if x != y:
                    break
                want.append(x)
            trail.append('common of %s and %s' % (m.nodes, n.nodes))
            p = paths[i].common(other)
            if serials(p, 'common') != want:
                fail('common', 'the common path of %s and %s is %s' % (m.nodes, n.nodes, serials(p, 'common')))
            rec.count('common_length_%d' % min(len(want), 3))
            add(p, M(m.cls, want))
            p = other = None
        elif op == 'invalidate':
            trail.append('invalidate %s' % models[i].nodes)
            paths[i].invalidate()
            todo = [i]
            while todo:
                k = todo.pop()
                m = of(k)
                if m is None:
                    continue
                rec.count('invalidated')
                m.broken = True
                todo.extend(m.children)
        elif op == 'drop path' and len(paths) > 1:
            drop_path(i)
        elif op == 'drop node' and live:
            drop_node(rng.choice(sorted(live)))
        # what every path says
        for i in sorted(paths):
            p, m = paths[i], models[i]
            rec.count('paths_checked')
            if serials(p, 'nodes') != m.nodes or len(p) != len(m.nodes):
                fail('nodes', 'a path of %s has %s, len %d' % (m.nodes, serials(p, 'nodes'), len(p)))
            if [p[x].serial for x in range(-len(m.nodes), len(m.nodes))] != m.nodes * 2:
                fail('items', 'by index %s has others' % (m.nodes,))
            if bool(p.broken) != m.broken:
                fail('broken', 'broken is %r' % (p.broken,))
            if m.parent is None:
                if p.parent is not None:
                    fail('parent', 'a path of its own has a parent')
            elif m.parent in paths:
                if p.parent is not paths[m.parent]:
                    fail('parent', 'another parent')
            elif p.parent is None or serials(p.parent, 'parent') != of(m.parent).nodes:
                fail('parent', 'a dropped parent of %s became %r' % (of(m.parent).nodes, p.parent))
            kids = list(p.iterchildren())
            want = [k for k in m.children if of(k) is not None]
            if [serials(k, 'iterchildren') for k in kids] != [of(k).nodes for k in want]:
                fail('iterchildren', '%s has the live children %s, iterchildren gives %s' % (m.nodes, [of(k).nodes for k in want], [serials(k, '') for k in kids]))
            for c, k in zip(kids, want):
                if k in paths and c is not paths[k]:
                    fail('iterchildren', 'another object')
            rec.count('children_checked', len(kids))
            kids = c = None
            moving = [k for k in m.nodes if isinstance(live[k], lib.basenodes.Transform)]
            if serials(p.transformChildren(), 'transformChildren') != moving or serials(p.transformChildren(reverse=1), 'transformChildren') != moving[::-1]:
                fail('transformChildren', 'not %s' % moving)
            if rng.random() < .3:
                text = str(p)
                if text != '%s(%s)' % (m.cls.__name__, '->'.join(str(live[k]) for k in m.nodes)):
                    fail('str', text)
        p = None
        if len(paths) > 1:
            i, j = rng.choice(sorted(paths)), rng.choice(sorted(paths))
            same = models[i].nodes == models[j].nodes
            rec.count('compared_equal' if same else 'compared_different')
            if bool(paths[i] == paths[j]) != same or bool(paths[i] != paths[j]) == same:
                fail('comparison', '%s and %s (%s, %s): == %r, != %r' % (models[i].nodes, models[j].nodes, models[i].cls.__name__, models[j].cls.__name__, paths[i] == paths[j], paths[i] != paths[j]))
            again = [live[k] for k in models[i].nodes]
            if not paths[i] == again or paths[i] != again or not paths[i] == S(again) or not W(again) == paths[i] or not S(again) == paths[i]:
                fail('comparison', 'not equal to another path of its nodes')
            if again:
                other = again[:-1] + [b.Transform()]
                if paths[i] == other or not paths[i] != S(other) or paths[i] == again[:-1] or paths[i] == again + again[:1]:
                    fail('comparison', 'equal to a path with another node')
                other = None
            again = None
    rec.nontrivial(tuple(trail))
    rec.sample('; '.join(trail)[:1000])
