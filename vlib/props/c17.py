"""C17: the native modules under AddressSanitizer and UBSan, and their reference counts."""
import gc
import json
import random
import sys
import weakref
import numpy as np
from .. import lib
from ..rec import Violation
from . import c16, c18

STATE = {}
AUTOMATIC_GC = True


def plan(tier, mode):
    k = 1 if tier == 'quick' else 25
    if mode == 'asan':
        return [('program', 400 * k), ('cull', 3000 * k), ('cull-refused', 300 * k), ('hostile', 400 * k), ('junk-matrices', 400 * k)]
    return [('balance', 160 * k), ('balance-cull', 60 * k), ('balance-matrices', 60 * k), ('held', 150 * k), ('hostile', 300 * k), ('program', 300 * k)]


def setup(ctx):
    c18.setup(ctx)
    from vrml_accelerate import tmatrixaccel, fieldaccel2
    STATE.update(cull=c18.STATE['cull'], tm=tmatrixaccel, BF=fieldaccel2.BaseField)


def run_case(kind, index, rng, rec, ctx):
    {'program': program, 'cull': cull, 'cull-refused': cull, 'hostile': hostile, 'junk-matrices': junk, 'balance': balance, 'balance-cull': balance_cull, 'balance-matrices': balance_matrices, 'held': held}[kind](kind, rng, rec)
    rec.count('ran_%s' % kind)


def program(kind, rng, rec):
    seed = rng.getrandbits(62)
    which = rng.choice(['fields', 'fields', 'plain', 'plain', 'nodes', 'matrices', 'matrices', 'matrices', 'document'])
    t = c16.trace(which, seed)
    rec.count('entries', len(t))
    rec.nontrivial(repr(t))
    rec.sample(json.dumps(t)[:800])


def cull(kind, rng, rec):
    # arrays of exactly the size they need, each on its own: reading past them is seen
    c18.run_case('cull' if kind == 'cull' else 'refused', 0, rng, rec, None)
    for shape in ((0, 4), (1, 4)):
        pts = np.zeros((rng.choice([0, 1, 2, 7]), rng.choice([3, 4])), 'f')
        STATE['cull'](np.zeros(shape, 'f'), pts)
    rec.count('cull_calls', 3)


def number(rng):
    return rng.choice([0, 1, -1, 1e30, -1e38, 1e-45, 1e300, float('inf'), float('-inf'), float('nan'), 2 ** 70, -5, .5, np.float32(2), np.int64(7), True])


def junk(kind, rng, rec):
    tm = STATE['tm']
    for _ in range(10):
        name, n = rng.choice([('transMatrix', 3), ('scaleMatrix', 3), ('rotMatrix', 4), ('perspectiveMatrix', 4), ('perspectiveMatrix', 5), ('orthoMatrix', 6)])
        args = [number(rng) if rng.random() < .9 else rng.choice([None, 'x', [], object(), np.zeros(3), 1j]) for _ in range(rng.choice([n, n, n, n - 1, 0, n + 1]))]
        try:
            m = getattr(tm, name)(*args)
        except (TypeError, ValueError, OverflowError, ZeroDivisionError):
            rec.count('junk_refused')
        else:
            if m is not None and (m.shape != (4, 4) or m.dtype != np.float32):
                raise Violation('matrix-form', '%s%r gives %r' % (name, args, m))
            rec.count('junk_computed')
        rec.nontrivial(name, repr(args))


def hostile(kind, rng, rec):
    """Objects which change things while the native code holds on to them"""
    BF = STATE['BF']
    events = []

    class Meta(type):
        pass

    class Odd(BF):
        def coerce(self, value):
            k = rng.randrange(6)
            events.append(k)
            if k == 0:
                # the name and default vanish under the running assignment
                self.name = 'other%d' % rng.randrange(3)
                self.defaultobj = object()
            elif k == 1:
                raise rng.choice([ValueError, TypeError, OverflowError, KeyError, MemoryError])(value)
            elif k == 2:
                client[0].__dict__.clear()
                gc.collect()
            elif k == 3 and len(events) < 40:
                client[0].x = [value]
            elif k == 4:
                return type('T', (), {})()
            return value

    class Default:
        def __call__(self):
            f.defaultobj = rng.choice([None, Default(), 5])
            f.call_default = callable(f.defaultobj)
            gc.collect()
            return [object()]

    f = Odd('x', rng.choice([Default(), None, [], list]))
    C = Meta('C', (), {'x': f})
    client = [C()]

    def ear(signal=None, sender=None, value=None):
        k = rng.randrange(5)
        if k == 0:
            sender.__dict__.clear()
        elif k == 1:
            f.name = 'x'
        elif k == 2 and len(events) < 40:
            sender.x = object()
        elif k == 3:
            raise LookupError('from a receiver')
        gc.collect()

    lib.dispatcher.connect(ear, ('set', f))
    lib.dispatcher.connect(ear, ('del', f))
    done = 0
    for _ in range(20):
        o = client[0]
        op = rng.randrange(9)
        try:
            if op == 0:
                o.x = [object()]
            elif op == 1:
                o.x
            elif op == 2:
                del o.x
            elif op == 3:
                f.fset(o, object(), rng.choice([0, 1]))
            elif op == 4:
                f.fdel(o, rng.choice([0, 1]))
            elif op == 5:
                f.getDefault(rng.choice([None, o]))
            elif op == 6:
                # what is no client at all
                rng.choice([lambda: f.fset(5, 1), lambda: f.fset(None, 1), lambda: f.fget(None, None), lambda: f.fget(5, int), lambda: f.fdel(None), lambda: f.fdel(object()), lambda: f.__set__(None, 5),
                            lambda: f.__delete__(None), lambda: f.fset(), lambda: f.fset(o), lambda: f.getDefault(7), lambda: BF(), lambda: BF(5, 5), lambda: BF('a'), lambda: BF(None, None), lambda: BF.__new__(BF).name,
                            lambda: BF.__new__(BF).getDefault(), lambda: BF.__new__(BF).fset(o, 5), lambda: BF.__new__(BF).fget(o, C), lambda: BF.__new__(BF).fdel(o)])()
            elif op == 7:
                client[0] = C()
                del o
            else:
                f.__init__(rng.choice(['x', 'y']), rng.choice([Default(), None, dict]))
            rec.count('hostile_done')
        except (ValueError, TypeError, KeyError, MemoryError, AttributeError, LookupError, RecursionError):
            rec.count('hostile_raised')
        done += 1
    lib.dispatcher.disconnect(ear, ('set', f))
    lib.dispatcher.disconnect(ear, ('del', f))
    rec.count('hostile_events', len(events))
    rec.nontrivial(tuple(events), done)


class Marked:
    """Something whose references can be counted"""


def settle():
    gc.collect()
    return sys.getallocatedblocks()


def grows(rec, fn, what, n=400):
    """Blocks that every repetition leaves behind"""
    for _ in range(60):
        fn()
    worst = None
    for attempt in range(3):
        a = settle()
        for _ in range(n):
            fn()
        b = settle()
        worst = b - a
        if worst < n // 2:
            break
    rec.count('repetitions', n)
    if worst >= n // 2:
        raise Violation('leak:' + what, '%d repetitions of %s leave %d blocks of memory behind' % (n, what, worst))


def balance(kind, rng, rec):
    BF = STATE['BF']
    value, default, name = Marked(), Marked(), 'x%d' % rng.randrange(10 ** 9)
    refuse = [None]

    class Picky(BF):
        def coerce(self, v):
            if refuse[0]:
                raise refuse[0]('no')
            return v

    made = Marked()
    op = rng.choice(['set', 'set-refused', 'get', 'get-default', 'get-call', 'del', 'fset', 'fset-quiet', 'fdel', 'fdel-missing', 'default', 'coerce', 'check', 'create', 'receiver-raises', 'class', 'attributes'])
    f = (Picky if rng.random() < .6 or op == 'set-refused' else BF)(name, (lambda: made) if op == 'get-call' else default)
    C = type('C', (), {'x': f})
    o = C()
    heard = rng.random() < .5 or op == 'receiver-raises'

    def ear(signal=None, sender=None, value=None):
        if op == 'receiver-raises':
            raise LookupError('no')
    if heard:
        lib.dispatcher.connect(ear, ('set', f))
        lib.dispatcher.connect(ear, ('del', f))
    refusal = rng.choice([ValueError, TypeError, OverflowError, KeyError])

    def once():
        try:
            if op == 'set':
                o.x = value
            elif op == 'set-refused':
                refuse[0] = refusal
                o.x = value
            elif op == 'get':
                o.__dict__[name] = value
                o.x
            elif op in ('get-default', 'get-call'):
                o.__dict__.clear()
                o.x
                o.x
            elif op == 'del':
                o.__dict__[name] = value
                del o.x
            elif op == 'fset':
                f.fset(o, value, 1)
            elif op == 'fset-quiet':
                f.fset(o, value, 0)
            elif op == 'fdel':
                o.__dict__[name] = value
                f.fdel(o, 1)
            elif op == 'fdel-missing':
                o.__dict__.clear()
                f.fdel(o, 1)
            elif op == 'default':
                f.getDefault(None)
                f.getDefault(o)
            elif op == 'coerce':
                f.coerce(value)
            elif op == 'check':
                f.check(value)
            elif op == 'create':
                BF(name, default)
                f.__init__(name, default)
            elif op == 'receiver-raises':
                o.x = value
            elif op == 'class':
                C.x
                f.fget(None, C)
            else:
                f.name, f.defaultobj, f.call_default
                f.name, f.defaultobj = name, default
        except (ValueError, LookupError, AttributeError):
            rec.count('balance_raised')
        finally:
            refuse[0] = None

    watched = {'value': value, 'default': default, 'made': made, 'client': o, 'field': f, 'name': name}
    once()
    gc.collect()
    before = {k: sys.getrefcount(v) for k, v in watched.items()}
    n = rng.randint(50, 90)
    for _ in range(n):
        once()
    gc.collect()
    after = {k: sys.getrefcount(v) for k, v in watched.items()}
    for k in watched:
        # immortal or shared objects aside, nothing may drift with the number of repetitions
        if abs(after[k] - before[k]) > 5:
            raise Violation('reference-count:' + op, '%d repetitions of %s move the reference count of the %s from %d to %d' % (n, op, k, before[k], after[k]))
    rec.count('balance_' + op)
    rec.count('references_watched', len(watched))
    grows(rec, once, op)
    refs = [weakref.ref(x) for x in (value, default, made)]
    if heard:
        lib.dispatcher.disconnect(ear, ('set', f))
        lib.dispatcher.disconnect(ear, ('del', f))
    rec.nontrivial(op, heard, type(f).__name__, n)
    del value, default, made, f, C, o, watched, once, ear, Picky
    refuse.clear()
    gc.collect()
    if any(r() is not None for r in refs):
        raise Violation('kept-alive:' + op, 'a value given to a field is never released after %s' % op)
    rec.count('released', 3)


def balance_cull(kind, rng, rec):
    n, m, w = rng.randint(1, 6), rng.randint(1, 20), rng.choice([3, 4])
    planes, points = np.array([[rng.uniform(-1, 1) for _ in range(4)] for _ in range(n)], 'f'), np.array([[rng.uniform(-5, 5) for _ in range(w)] for _ in range(m)], 'f')
    bad = rng.random() < .4
    if bad:
        points = np.zeros((m, rng.choice([1, 2, 5])), 'f')
    elif rng.random() < .5:
        planes[rng.randrange(n)] = (0, 0, 0, -1)

    def once():
        try:
            STATE['cull'](planes, points, 0.5)
        except TypeError:
            pass
    once()
    a = sys.getrefcount(planes), sys.getrefcount(points)
    for _ in range(60):
        once()
    b = sys.getrefcount(planes), sys.getrefcount(points)
    if max(abs(x - y) for x, y in zip(a, b)) > 5:
        raise Violation('reference-count:planeCull', 'reference counts of the arrays go from %r to %r' % (a, b))
    rec.count('references_watched', 2)
    grows(rec, once, 'planeCull')
    # buffers are given back: a resize is refused while one is exported
    try:
        planes.resize((n + 1, 4), refcheck=False)
    except (ValueError, BufferError) as exc:
        raise Violation('buffer-kept', 'the buffer of an array stays exported: %s' % exc)
    rec.nontrivial(n, m, w, bad)


def balance_matrices(kind, rng, rec):
    tm = STATE['tm']
    name, args = rng.choice([('transMatrix', (1, 2, 3)), ('scaleMatrix', (2, 3, 4)), ('rotMatrix', (0, 1, 0, 1)), ('rotMatrix', (0, 0, 0, 0)), ('rotMatrix', (1, 2, 3, 4)), ('perspectiveMatrix', (1, 1, 1, 10)),
                             ('perspectiveMatrix', (1, 1, 1, 10, True)), ('orthoMatrix', (-1, 1, -1, 1, 0, 5)), ('orthoMatrix', (1, 1, 1, 1, 1, 1)), ('transMatrix', ('x', 2, 3)), ('rotMatrix', (1, 2, 3, None))])

    def once():
        try:
            getattr(tm, name)(*args)
        except TypeError:
            pass
    grows(rec, once, name)
    rec.nontrivial(name, args)


def held(kind, rng, rec):
    """Values live exactly as long as the node holds them"""
    proto = STATE.get('proto')
    if proto is None:
        proto = STATE['proto'] = lib.node.prototype('Held', [lib.field.newField('kid', 'SFNode', 1), lib.field.newField('kids', 'MFNode', 1, list), lib.field.newField('v', 'MFVec3f', 1)])
    o = proto()
    log = []
    for _ in range(rng.randint(3, 12)):
        k = rng.randrange(6)
        n = lib.basenodes.Box()
        r = weakref.ref(n)
        log.append(k)
        if k == 0:
            o.kid = n
            del n
            gc.collect()
            if o.kid is not r() or r() is None:
                raise Violation('value-lost', 'a node stored in a field is not there any more', repr(log))
            if rng.random() < .5:
                o.kid = lib.NULL
            else:
                del o.kid
        elif k == 1:
            o.kids = [n, lib.basenodes.Box()]
            del n
            gc.collect()
            if o.kids[0] is not r() or r() is None:
                raise Violation('value-lost', 'a node stored in a list field is not there any more', repr(log))
            o.kids = []
        elif k == 2:
            lib.getField(o, 'kid').fset(o, n, 0)
            del n
            lib.getField(o, 'kid').fdel(o, 0)
        elif k == 3:
            try:
                o.v = n
            except ValueError:
                pass
            del n
        elif k == 4:
            x = proto(kid=n)
            del n, x
        else:
            a = np.array([[1, 2, 3]], 'f')
            o.v = a
            r = weakref.ref(a)
            got = o.v
            del a, got
            o.v = []
        gc.collect()
        if r() is not None:
            raise Violation('value-kept', 'what a field held once is never released (operation %d)' % k, repr(log))
        rec.count('lifetimes')
    rec.nontrivial(tuple(log))
