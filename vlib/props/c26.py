"""C26: an exception in the middle of an operation leaves nothing half done behind.

'reading': operations which only read are broken off at any line of the repository's code they execute; the scene is
as it was, and the operation, done again with the same objects, gives what it would have given.
'changing': two scenes built alike go through the same history; in one of them observers, handlers and nodes raise now
and then, and what was broken off is done again.  The two must not be told apart afterwards."""
import gc
import sys

import numpy as np

from .. import faults, gen, lib, tmath
from ..rec import REPO, Violation
from . import c04, c05, c19

CLEANUP_EVERY = 60
STATE = {}


def plan(tier, mode):
    k = 1 if tier == 'quick' else 15
    return [('reading', 40 * k), ('changing', 120 * k)]


def setup(ctx):
    STATE['injector'] = faults.Injector(REPO + '/vrml')


def run_case(kind, index, rng, rec, ctx):
    lost = []
    hook, sys.unraisablehook = sys.unraisablehook, lambda a: lost.append('%s: %s' % (type(a.exc_value).__name__, a.exc_value))
    try:
        if kind == 'reading':
            reading(rng, rec)
        else:
            changing(rng, rec)
    finally:
        sys.unraisablehook = hook
    rec.require(not lost, 'lost', 'an exception was raised where it is lost: %s' % lost[:3])


# ------------------------------------------------------------------ reading
def reading(rng, rec):
    inj = STATE['injector']
    g, ast = c04.document(rng, size=rng.choice([3, 8, 20]))
    text = gen.Emitter(rng, 'plain').document(ast)
    parser = lib.parser()
    sg = lib.parse(text, parser)
    want = read = lib.linearise.linearise(sg)
    lin = lib.linearise.Lineariser()
    nodes = [o for o in c19.walk(sg) if isinstance(o, lib.Node)]
    node = rng.choice(nodes)
    # a ROUTE, or the body of a PROTO, written by itself gives names to the nodes of ROUTEs
    one, want = node.toString(), lib.linearise.linearise(sg)
    copied = lib.linearise.linearise(sg.copy())
    said = [repr(o) for o in nodes]
    before = c05.snapshot(sg)
    same = lambda r: r == want
    ops = {
        'write': (lambda: lib.linearise.linearise(sg), same),
        'write-again': (lambda: lin.linear(sg), same),
        'write-node': (lambda: node.toString(), lambda r: r == one),
        'copy': (lambda: sg.copy(), lambda r: lib.linearise.linearise(r) == copied),
        'read': (lambda: lib.parse(text, parser), lambda r: lib.linearise.linearise(r) == read),
        'repr': (lambda: [repr(o) for o in nodes], lambda r: r == said),
    }
    protos = [type(o) for o in nodes if isinstance(o, lib.PrototypedNode)]
    if protos:
        cls = rng.choice(protos)
        fresh = cls().toString()
        ops['new'] = (cls, lambda r: r.toString() == fresh)
    rec.sample(text)
    for name, (op, ok) in ops.items():
        _, r = inj.run(op)
        total = inj.lines
        rec.require(ok(r), 'differs:' + name, '%s differs the second time' % name)
        for _ in range(3):
            at = rng.randint(1, max(1, total))
            kind = rng.choice([faults.Interrupted, faults.OutOfMemory])
            done, r = inj.run(op, at, kind)
            where = inj.where
            if done:
                rec.require(where is None, 'swallowed:' + name, '%s: %s raised at %s did not reach the caller' % (name, kind.__name__, where))
                continue
            rec.count('broken_off_reading')
            rec.count('broken_off:' + name)
            rec.nontrivial(name, where)
            what = '%s, broken off at %s' % (name, where)
            d = c05.diff(before, c05.snapshot(sg))
            rec.require(not d, 'changed:' + name, '%s, changed the scene: %s' % (what, d), text)
            try:
                r = op()
                good = ok(r)
            except Violation:
                raise
            except Exception as e:
                raise Violation('fails:' + name, '%s: doing it again fails with %s' % (what, lib.text_of(e)), text)
            rec.require(good, 'differs:' + name, '%s: doing it again has another result' % what, text)
            rec.evaluations += 1


# ------------------------------------------------------------------ changing
class Boom(Exception):
    pass


FIELDS = tmath.FIELDS
FLAGS = [(True, True, True), (True, False, True), (False, True, True), (True, True, False)]


class World:
    """One of the two scenes"""

    def __init__(self, twins):
        b = lib.basenodes
        self.armed, self.log, self.ears = None, [], []
        world = self

        class Shaky(b.Transform):
            def localMatrices(self, *args, **named):
                world.may_fail()
                return super().localMatrices(*args, **named)

        class Handles(lib.PrototypedNode, lib.Node):
            PROTO = 'Handles'
            go = lib.field.newEvent('go', 'SFVec3f', 0)
            gone = lib.field.newEvent('gone', 'SFVec3f', 1)

            def on_go(self, value, event=None):
                world.may_fail()
                self.gone = value
                world.may_fail()

        inst = STATE['proto']
        self.ts = [b.Transform(), b.Transform(), Shaky(), Shaky()]
        self.gs = [b.Group(), b.Group(), b.Anchor()]
        self.ps = [inst(), inst()]
        self.hs = [Handles()]
        self.ss = [b.Shape()]
        self.spare = [b.Group() for _ in range(6)] + [b.Shape(), b.Appearance(), b.Appearance()]
        self.sg = lib.scenegraph.SceneGraph()
        self.nodes = self.ts + self.gs + self.ps + self.hs + self.ss + self.spare + [self.sg]
        for p in self.ps:
            self.nodes.append(lib.PrototypedNode.scenegraph.fget(p).children[0])
        self.label = {id(n): i for i, n in enumerate(self.nodes)}
        self.paths = []
        self.routes = 0

    def may_fail(self):
        if self.armed is not None:
            self.armed -= 1
            if self.armed <= 0:
                self.armed = None
                raise Boom()

    def watch(self, i, name, signal):
        n = self.nodes[i]
        world = self

        def ear(signal, sender, value=None):
            world.log.append((i, signal if isinstance(signal, str) else (signal[0], signal[1].name)))
            world.may_fail()
        self.ears.append(ear)
        if name is None:
            lib.dispatcher.connect(ear, signal=signal, sender=n)
        else:
            f = lib.getField(n, name)
            f.watch(n, ear, (signal, f))

    def of(self, v):
        if isinstance(v, lib.NullNode):
            return 'NULL'
        if isinstance(v, lib.Node):
            return self.label.get(id(v), type(v).__name__)
        if isinstance(v, list):
            return [self.of(x) for x in v]
        if isinstance(v, np.ndarray):
            return v.dtype.str, v.shape, v.tobytes()
        return repr(v)

    def state(self):
        out = []
        for i, n in enumerate(self.nodes):
            vals = {k: self.of(v) for k, v in n.__dict__.items() if isinstance(v, (lib.Node, list, np.ndarray, str)) and not k.startswith(' ') and not c05.stored_default(n, k)}
            root = lib.root(n)
            out.append((i, type(n).__name__, vals, root is not None and self.label.get(id(root), '?')))
        out.append({k: self.label[id(v)] for k, v in self.sg.defNames.items() if k and v is not None})
        out.append(len(self.sg.routes))
        return out

    def matrices(self):
        return [[p.transformMatrix(*fl, inverse=inv) for fl in FLAGS[:2] for inv in (False, True)] for p in self.paths]


PROTO = """#VRML V2.0 utf8
PROTO Moved [ exposedField SFVec3f t 0 0 0  exposedField MFNode c [] ] { Transform { translation IS t children IS c } }
"""


def changing(rng, rec):
    if 'proto' not in STATE:
        STATE['protoscene'] = lib.parse(PROTO)
        STATE['proto'] = STATE['protoscene'].getProto('Moved')
    gc.disable()
    try:
        a, b = World(None), World(None)
        trail = []
        a.fields = rng.sample(FIELDS, rng.randint(1, 2)) + (['rotation'] if rng.random() < .3 else [])
        for _ in range(rng.randint(5, 25)):
            k = choose(rng, a, ['watch', 'watch', 'watch', 'route', 'path'])
            k[1](a), k[1](b)
            trail.append(k[0])
        for step in range(rng.choice([10, 20, 40])):
            if one(rng, rec, a, b, trail):
                rec.nontrivial(tuple(t.split(' ')[0] for t in trail[-2:]), step)
            rec.evaluations += 1
    finally:
        gc.enable()


def vec(rng, n=3):
    return [rng.choice([-1, 1]) * rng.uniform(.3, 3) for _ in range(n)]


EDITS = ['append', 'insert', 'remove', 'pop', 'setitem', 'slice', 'delslice']
KINDS = ['set', 'set', 'set', 'set', 'del', 'path', 'matrix', 'matrix', 'matrix', 'route', 'list', 'list', 'edit', 'edit', 'name', 'watch', 'watch', 'node', 'go', 'proto', 'protolist', 'protoedit']


def choose(rng, a, kinds=KINDS):
    """(name, operation on a world, retry how to go on when it raised ('again', what to do instead, None: it cannot), log: whether the events are the same ones)"""
    k = rng.choice(kinds)
    nts = len(a.ts)
    if k in ('set', 'del'):
        i, f = rng.randrange(nts), rng.choice(a.fields)
        v = vec(rng, 4 if f in ('rotation', 'scaleOrientation') else 3)
        if k == 'set':
            return 'set %d.%s' % (i, f), lambda w: setattr(w.ts[i], f, v), 'again', True
        if f not in a.ts[i].__dict__:
            return None

        def stored(w):
            if f in w.ts[i].__dict__:
                delattr(w.ts[i], f)
        return 'del %d.%s' % (i, f), stored, lambda w: setattr(w.ts[i], f, v), False
    if k == 'path':
        c = [rng.randrange(nts) for _ in range(rng.randint(1, 3))]
        return 'path', lambda w: w.paths.append(lib.nodepath.NodePath([w.ts[i] for i in c])), None, True
    if k == 'matrix':
        if not a.paths:
            return None
        i, fl, inv = rng.randrange(len(a.paths)), rng.choice(FLAGS), rng.random() < .5
        return 'matrix %d' % i, lambda w: w.paths[i].transformMatrix(*fl, inverse=inv), 'again', True
    if k == 'route':
        i, j = rng.sample(range(nts), 2)
        f = rng.choice(a.fields)
        return 'route %d.%s %d' % (i, f, j), lambda w: w.sg.addRoute((w.ts[i], f, w.ts[j], f)), lambda w: None, False
    n = len(a.nodes)
    kids = lambda: [rng.choice([x for x in range(n) if not isinstance(a.nodes[x], lib.scenegraph.SceneGraph)]) for _ in range(rng.randint(0, 3))]
    owners = [a.nodes.index(g) for g in a.gs + [a.sg]]
    own = rng.choice(owners)
    free = [x for x in range(n) if a.nodes[x] in a.spare]
    if k == 'list':
        new = rng.sample(free, rng.randint(0, 4))
        return 'list %d' % own, lambda w: setattr(w.nodes[own], 'children', [w.nodes[x] for x in new]), 'again', False
    if k == 'edit':
        new = rng.choice(free)
        size = len(a.nodes[own].__dict__.get('children', ()))
        kind = rng.choice(EDITS)
        at = rng.randrange(size) if size else 0
        if not size and kind in ('remove', 'pop', 'setitem'):
            return None

        def edit(w):
            l, x = w.nodes[own].children, w.nodes[new]
            if kind == 'append':
                l.append(x)
            elif kind == 'insert':
                l.insert(at, x)
            elif kind == 'remove':
                del l[at]
            elif kind == 'pop':
                l.pop(at)
            elif kind == 'setitem':
                l[at] = x
            elif kind == 'slice':
                l[at:at + 1] = [x]
            else:
                del l[at:at + 2]
        return '%s %d' % (kind, own), edit, lambda w: setattr(w.nodes[own], 'children', list(w.nodes[own].children)), False
    if k == 'name':
        x, name = rng.randrange(n - 3), rng.choice('ABC')
        return 'name', lambda w: w.sg.regDefName(name, w.nodes[x]), 'again', True
    if k == 'watch':
        what = rng.choice(['list', 'child', 'field', 'field', 'field', 'node', 'event', 'proto'])
        signal = rng.choice(['set', 'set', 'route', 'del'])
        if what == 'list':
            return 'watch', lambda w: (w.nodes[own].children, w.watch(own, 'children', 'set')), None, True
        if what == 'child':
            i, signal = rng.choice([(own, 'new'), (own, 'del'), (rng.choice(free), 'added'), (rng.choice(free), 'removed')])
            return 'watch', lambda w: w.watch(i, None, signal), None, True
        if what == 'field':
            i, f = rng.randrange(nts), rng.choice(a.fields)
        elif what == 'node':
            i, f = a.nodes.index(a.ss[0]), 'appearance'
        elif what == 'event':
            i, f, signal = a.nodes.index(a.hs[0]), 'gone', 'set'
        else:
            p = rng.randrange(len(a.ps))
            i, f = rng.choice([(a.nodes.index(a.ps[p]), 't'), (n - len(a.ps) + p, 'translation'), (a.nodes.index(a.ps[p]), 'c'), (n - len(a.ps) + p, 'children')])
            return 'watch', lambda w: (getattr(w.nodes[i], f), w.watch(i, f, signal)), None, True
        return 'watch', lambda w: w.watch(i, f, signal), None, True
    if k == 'node':
        s = a.nodes.index(a.ss[0])
        x = rng.choice([i for i in free if isinstance(a.nodes[i], lib.basenodes.Appearance)])
        return 'node', lambda w: setattr(w.nodes[s], 'appearance', w.nodes[x]), 'again', True
    if k == 'go':
        v = vec(rng)
        h = a.nodes.index(a.hs[0])
        if rng.random() < .3:
            return 'watch', lambda w: w.watch(h, 'gone', 'set'), None, True
        return 'go', lambda w: setattr(w.nodes[h], 'go', v), 'again', True
    i = rng.randrange(len(a.ps))
    p = a.nodes.index(a.ps[i])
    inner = n - len(a.ps) + i
    if k == 'proto':
        v = vec(rng)
        return 'proto', lambda w: setattr(w.nodes[p], 't', v), 'again', True
    if k == 'protoedit':
        x = rng.choice(free)
        o, f = rng.choice([(p, 'c'), (inner, 'children')])
        return 'protoedit', lambda w: getattr(w.nodes[o], f).append(w.nodes[x]), lambda w: setattr(w.nodes[o], f, list(getattr(w.nodes[o], f))), False
    new = rng.sample(free, rng.randint(0, 3))
    return 'protolist', lambda w: setattr(w.nodes[p], 'c', [w.nodes[x] for x in new]), 'again', False


def one(rng, rec, a, b, trail):
    c = choose(rng, a)
    if c is None:
        return False
    name, op, retry, logged = c
    a.log, b.log = [], []
    rb = op(b)
    boomed = 0
    a.armed = rng.choice([1, 1, 2, 3, 5]) if retry and rng.random() < .6 else None
    while True:
        a.log = []
        try:
            ra = op(a)
            break
        except Boom:
            boomed += 1
            rec.count('broken_off')
            word, where = (name.split(' ') + [''])[:2]
            rec.count('broken_off_changing:' + word)
            if word == 'set':
                i, f = where.split('.')
                kept = [w.of(w.ts[int(i)].__dict__.get(f)) for w in (a, b)]
            elif word in EDITS + ['list']:
                kept = [w.of(w.nodes[int(where)].__dict__.get('children')) for w in (a, b)]
            else:
                kept = [0, 0]
            rec.require(kept[0] == kept[1], 'dropped:' + word, '%s: an observer raised and the value is %r instead of %r' % (name, kept[0], kept[1]), '\n'.join(trail))
            if retry != 'again':
                a.armed = None
                ra = retry(a)
                retry(b)
                break
            if boomed < 3 and rng.random() < .2:
                a.armed = rng.choice([1, 2])
    a.armed = None
    trail.append(name + (' broken off %d times' % boomed if boomed else ''))
    text = '\n'.join(trail)
    if isinstance(rb, np.ndarray):
        rec.require(ra is not None and np.array_equal(ra, rb), 'matrix', '%s: the matrix is\n%r instead of\n%r' % (name, ra, rb), text)
    if boomed == 0 or logged:
        rec.require(a.log == b.log, 'events', '%s: heard %r instead of %r' % (name, a.log, b.log), text)
        rec.count('event_logs_compared')
        rec.count('events_heard', len(b.log))
    sa, sb = a.state(), b.state()
    if sa != sb:
        bad = ['%r instead of %r' % (x, y) for x, y in zip(sa, sb) if x != y]
        raise Violation('state', '%s: %s' % (name, '; '.join(bad)[:1500]), text)
    if rng.random() < .4:
        for i, (x, y) in enumerate(zip(a.matrices(), b.matrices())):
            for j, (m, n) in enumerate(zip(x, y)):
                rec.require(np.array_equal(m, n), 'matrix', 'after %s: matrix %d of path %d is\n%r instead of\n%r' % (name, j, i, m, n), text)
                rec.count('matrices_compared')
    return boomed
