"""C15: transformation matrices against a float64 reference written from the VRML97 specification."""
import math
import numpy as np
from .. import lib, tmath
from ..rec import Violation

NAMES = ('translation', 'center', 'rotation', 'scale', 'scaleOrientation')


def plan(tier, mode):
    k = 1 if tier == 'quick' else 30
    return [('transform', 5000 * k), ('parts', 4000 * k), ('projection', 2500 * k), ('compress', 1500 * k)]


def number(rng, small=False):
    k = rng.randrange(8)
    if k == 0:
        return 0.0
    if k == 1:
        return rng.choice([1.0, -1.0])
    if k == 2:
        return rng.choice([1e-3, -1e-2, 1e-4])
    if k == 3 and not small:
        return rng.uniform(-1e4, 1e4)
    return rng.uniform(-10, 10)


def vector(rng):
    if rng.random() < .1:
        return (0.0, 0.0, 0.0)
    if rng.random() < .3:
        v = [0.0] * 3
        v[rng.randrange(3)] = number(rng) or 2.0
        return tuple(v)
    return tuple(number(rng) for _ in range(3))


def scaling(rng):
    if rng.random() < .1:
        return (1.0, 1.0, 1.0)
    if rng.random() < .2:
        return (rng.choice([2.0, .5, -1.0, 3.0]),) * 3
    return tuple(rng.choice([1.0, 1.0, rng.uniform(.1, 8), rng.uniform(-8, -.1), .01, 100.0]) for _ in range(3))


def rotation(rng):
    k = rng.randrange(10)
    if k == 0:
        a = 0.0
    elif k == 1:
        a = rng.choice([1, -1, 2, .5, -.5, 1.5, 2 / 3., 3, -3, 5, 2.5]) * math.pi
    elif k == 2:
        a = rng.choice([2, -2, 4, -4, 6]) * math.pi
    elif k == 3:
        a = rng.choice([1e-3, -1e-3, 1e-5, 2 * math.pi - 1e-3])
    elif k == 4:
        a = rng.uniform(-20, 20)
    else:
        a = rng.uniform(-math.pi, math.pi)
    k = rng.randrange(5)
    if k == 0:
        axis = [0.0] * 3
        axis[rng.randrange(3)] = rng.choice([1.0, -1.0, 2.0])
    elif k == 1:
        axis = rng.choice([(3.0, 4.0, 0.0), (0.6, 0.0, 0.8), (1.0, 1.0, 1.0), (.01, .02, .02), (-30.0, 40.0, 0.0)])
    else:
        while True:
            axis = [rng.uniform(-3, 3) for _ in range(3)]
            if sum(c * c for c in axis) > .05:
                break
        if rng.random() < .5:
            length = math.sqrt(sum(c * c for c in axis))
            axis = [c / length for c in axis]
            if rng.random() < .3:
                axis = [c * rng.choice([1.0005, .9995, 1.01, .99]) for c in axis]
    if rng.random() < .08:
        # squares beyond the range of single precision
        s = 10.0 ** rng.choice([-36, -30, -25, -22, -20, 18, 20, 25, 30, 36])
        axis = [c * s for c in axis]
    return tuple(axis) + (a,)


MAKE = {'translation': vector, 'center': vector, 'rotation': rotation, 'scale': scaling, 'scaleOrientation': rotation}


def spelled(rng, v):
    """(argument, what it holds)"""
    k = rng.randrange(7)
    if k == 0:
        return list(v), v
    if k == 1:
        return np.array(v, 'd'), v
    if k == 2:
        a = np.array(v, 'f')
        return a, tuple(float(c) for c in a)
    if k == 3 and all(float(c).is_integer() for c in v):
        return tuple(int(c) for c in v), v
    return tuple(v), v


def arguments(rng):
    kw, values = {}, {}
    for n in NAMES:
        k = rng.random()
        if k < .25:
            continue
        if k < .3:
            kw[n] = None
            continue
        kw[n], values[n] = spelled(rng, MAKE[n](rng))
    return kw, values


def frozen(kw):
    return {k: None if v is None else (type(v).__name__, [float(c) for c in v]) for k, v in kw.items()}


def agree(got, want, size, what, data, rel=4e-5):
    if not tmath.close(got, want, size, rel):
        raise Violation('matrix-' + what, '%s gives\n%s\nthe reference is\n%s' % (what, got, want), data)


def run_case(kind, index, rng, rec, ctx):
    tm = lib.transformmatrix
    if kind == 'transform':
        kw, values = arguments(rng)
        given = frozen(kw)
        data = repr(kw)
        parent = None
        fs, inv = tmath.factors(values), tmath.factors(values, True)
        pf = []
        if rng.random() < .6:
            pf = [f for _ in range(rng.randint(1, 2)) for f in tmath.factors({n: MAKE[n](rng) for n in NAMES if rng.random() < .5})]
            parent = tmath.product(pf)[0].astype(rng.choice(['f', 'd']))
            kw['parentMatrix'] = parent
            kept = parent.copy()
        want, size = tmath.product(fs + pf)
        iwant, isize = tmath.product(inv + pf)
        results = {}
        for name in rng.sample(['transformMatrix', 'itransformMatrix', 'transformMatrices', 'localMatrices', 'center'], 5):
            if name == 'localMatrices':
                f, i = tm.localMatrices(**{k: v for k, v in kw.items() if k != 'parentMatrix'})
                agree(f, *tmath.product(fs), 'localMatrices', data)
                agree(i, *tmath.product(inv), 'localMatrices-inverse', data)
                results[name] = [f, i]
            elif name == 'transformMatrices':
                f, i = tm.transformMatrices(**kw)
                agree(f, want, size, 'transformMatrices', data)
                agree(i, iwant, isize, 'transformMatrices-inverse', data)
                results[name] = [f, i]
            elif name == 'center':
                k2 = {k: v for k, v in kw.items() if k in ('translation', 'center', 'parentMatrix')}
                got = np.asarray(tm.center(**k2), 'd')
                v = dict(tmath.IDENTITY)
                v.update(values)
                cw, cs = tmath.product([tmath.trans(v['center']), tmath.trans(v['translation'])] + pf)
                if got.shape != (4,) or not np.all(np.abs(got - cw[3]) <= 4e-5 * cs[3] + 1e-7):
                    raise Violation('center', 'center() gives %s, the reference is %s' % (got, cw[3]), data)
                rec.count('centers')
            else:
                f = getattr(tm, name)(**kw)
                agree(f, *((want, size) if name == 'transformMatrix' else (iwant, isize)), name, data)
                results[name] = [f]
            rec.count('calls')
        if frozen({k: v for k, v in kw.items() if k != 'parentMatrix'}) != given or (parent is not None and not np.array_equal(parent, kept)):
            raise Violation('argument-changed', 'an argument was changed by the call', data)
        # points: through the transform and back
        f, i = tm.localMatrices(**{k: v for k, v in kw.items() if k != 'parentMatrix'})
        point = np.array([number(rng, True), number(rng, True), number(rng, True), 1.0])
        there = point if f is None else np.dot(point, f)
        back = there if i is None else np.dot(there, i)
        slack = np.abs(point) @ tmath.product(fs)[1] @ tmath.product(inv)[1]
        if not np.all(np.abs(back - point) <= 1e-4 * slack + 1e-5 * slack.max()):
            raise Violation('round-trip', 'a point %s goes to %s and comes back as %s' % (point, there, back), data)
        rec.count('points_there_and_back')
        # a caller may do what he likes with a result
        for name, ms in results.items():
            for m in ms:
                if m is not None:
                    m[...] = 7
        agree(tm.transformMatrix(**{k: v for k, v in kw.items() if k != 'parentMatrix'}), *tmath.product(fs), 'transformMatrix-again', data)
        if pf and (f is None or i is None) and parent is not None:
            rec.count('parent_only')
        rec.nontrivial(data)
        rec.sample(data)
    elif kind == 'parts':
        name = rng.choice(['rotMatrix', 'scaleMatrix', 'transMatrix'])
        v = {'rotMatrix': rotation, 'scaleMatrix': scaling, 'transMatrix': vector}[name](rng)
        arg, v = spelled(rng, v)
        extra = name != 'rotMatrix' and rng.random() < .2
        if extra:
            arg = list(arg) + [rng.choice([1.0, 5.0])]
        before = frozen({'x': arg})
        f, i = getattr(tm, name)(arg)
        ref = {'rotMatrix': lambda s: tmath.rot(v, s), 'scaleMatrix': lambda s: tmath.scale(v, s < 0), 'transMatrix': lambda s: tmath.trans(v, s)}[name]
        for got, want, s in ((f, ref(1), ''), (i, ref(-1), '-inverse')):
            if got is None:
                # only where there is nothing to do
                if not np.allclose(want, np.identity(4), rtol=0, atol=1e-6):
                    raise Violation('matrix-' + name + s, '%s(%r) gives None' % (name, arg))
            elif not tmath.close(got, want, np.abs(want) + (2 if name == 'rotMatrix' else 0), 2e-6):
                raise Violation('matrix-' + name + s, '%s(%r) gives\n%s\nthe reference is\n%s' % (name, arg, got, want))
        if (f is None) != (i is None):
            raise Violation('matrix-' + name, 'one of the two matrices is None', repr(arg))
        if f is not None and name == 'rotMatrix':
            r = np.asarray(f, 'd')[:3, :3]
            if not np.allclose(r @ r.T, np.identity(3), atol=5e-6) or abs(np.linalg.det(r) - 1) > 1e-5:
                raise Violation('not-a-rotation', 'rotMatrix(%r) is not a rotation:\n%s' % (arg, f))
            axis = np.array(v[:3]) / math.sqrt(sum(c * c for c in v[:3]))
            if not np.allclose(axis @ r, axis, atol=5e-6):
                raise Violation('not-a-rotation', 'rotMatrix(%r) moves its own axis' % (arg,))
            rec.count('rotations')
        if frozen({'x': arg}) != before:
            raise Violation('argument-changed', '%s changed its argument' % name, repr(before))
        if f is not None:
            # nothing is shared between calls
            f[...] = 5
            i[...] = 6
            g = getattr(tm, name)(arg)[0]
            if g is None or not tmath.close(g, ref(1), np.abs(ref(1)) + (2 if name == 'rotMatrix' else 0), 2e-6):
                raise Violation('shared-result', '%s(%r) gives another matrix after the first one was changed' % (name, arg))
        if rng.random() < .05:
            f, i = getattr(tm, name)()
            if f is not None or i is not None:
                raise Violation('matrix-' + name, '%s() gives %r' % (name, (f, i)))
        rec.count('part_' + name)
        rec.nontrivial(name, repr(arg))
    elif kind == 'projection':
        if rng.random() < .6:
            fovy = rng.choice([rng.uniform(.05, 3.0), math.pi / 2, math.pi / 3, 1.0])
            aspect = rng.choice([rng.uniform(.2, 5), 1.0, 4 / 3.])
            near = rng.choice([rng.uniform(.01, 10), .3, .1])
            far = near * rng.choice([rng.uniform(2, 100), 1000.0, 1e5])
            args = (fovy, aspect, near, far)
            kw = {}
            if rng.random() < .3:
                kw = dict(zip(('fovy', 'aspect', 'zNear', 'zFar'), args))
                args = ()
            m, inv = np.asarray(tm.perspectiveMatrix(*args, **kw), 'd'), np.asarray(tm.perspectiveMatrix(*args, inverse=True, **kw), 'd')
            f = 1 / math.tan(fovy / 2)
            want = np.array([[f / aspect, 0, 0, 0], [0, f, 0, 0], [0, 0, (far + near) / (near - far), -1], [0, 0, 2 * far * near / (near - far), 0]])
            data = repr((fovy, aspect, near, far))
            if not np.all(np.abs(m - want) <= 1e-5 * np.abs(want) + 1e-12):
                raise Violation('perspective', 'perspectiveMatrix%s gives\n%s\nthe reference is\n%s' % (data, m, want))
            winv = np.linalg.inv(want)
            if not np.all(np.abs(inv - winv) <= 2e-5 * np.abs(winv) + 1e-9 * np.abs(winv).max()):
                raise Violation('perspective-inverse', 'the inverse of perspectiveMatrix%s is\n%s\nthe reference is\n%s' % (data, inv, winv))
            # a point of the near and of the far plane, as the view volume has it
            for z, depth in ((near, -1), (far, 1)):
                t = math.tan(fovy / 2) * z
                for sx in (-1, 1):
                    p = np.array([sx * t * aspect, -sx * t, -z, 1.0]) @ m
                    if not np.allclose(p[:3] / p[3], (sx, -sx, depth), atol=1e-3):
                        raise Violation('perspective-volume', 'a corner of the view volume of %s goes to %s' % (data, p[:3] / p[3]))
            rec.count('perspectives')
        else:
            def span():
                a = number(rng, True)
                d = rng.choice([rng.uniform(1, 30), 2.0])
                return (a, a + d) if rng.random() < .8 else (a + d, a)
            (l, r), (b, t), (n, f) = span(), span(), span()
            args = (l, r, b, t, n, f)
            if rng.random() < .05:
                args = ()
                l, r, b, t, n, f = -1., 1., -1., 1., -1., 1.
            m = np.asarray(tm.orthoMatrix(*args), 'd')
            data = repr(args)
            want = np.array([[2 / (r - l), 0, 0, -(r + l) / (r - l)], [0, 2 / (t - b), 0, -(t + b) / (t - b)], [0, 0, -2 / (f - n), -(f + n) / (f - n)], [0, 0, 0, 1]])
            if not np.allclose(m, want, rtol=2e-5, atol=2e-5):
                raise Violation('ortho', 'orthoMatrix%s gives\n%s\nthe reference is\n%s' % (data, m, want))
            rec.count('orthos')
        rec.nontrivial(data)
    else:
        ms = []
        if rng.random() < .15:
            # many of them: moves and mirrorings, whose products are sure
            for _ in range(rng.choice([10, 20, 35, 64, 90, 130, 200])):
                m = tmath.trans([rng.randint(-9, 9) for _ in range(3)])
                for i in range(3):
                    m[i, i] = rng.choice([1, -1])
                ms.append(None if rng.random() < .1 else m.astype(rng.choice(['f', 'd'])))
            rec.count('compressed_many')
        for _ in range(0 if ms else rng.randint(0, 6)):
            if ms and rng.random() < .2:
                # the very same one again
                ms.append(rng.choice(ms))
                rec.count('compressed_repeated')
                continue
            ms.append(None if rng.random() < .3 else np.array([[rng.uniform(-2, 2) for _ in range(4)] for _ in range(4)], rng.choice(['f', 'd'])))
        kept = [None if m is None else m.copy() for m in ms]
        got = tm.compressMatrices(*ms)
        want, size = tmath.product([m.astype('d') for m in reversed(ms) if m is not None])
        if all(m is None for m in ms):
            if got is not None:
                raise Violation('compress', 'compressMatrices of no matrix gives %r' % (got,))
        elif got is None or not tmath.close(got, want, size):
            raise Violation('compress', 'compressMatrices gives\n%s\nthe reference is\n%s' % (got, want), repr(ms))
        for a, b in zip(ms, kept):
            if (a is None) != (b is None) or (a is not None and not np.array_equal(a, b)):
                raise Violation('argument-changed', 'compressMatrices changed an argument', repr(kept))
        rec.count('compressed')
        rec.nontrivial(repr(ms))
