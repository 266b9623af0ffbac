"""C18: planeCull against a float64 model."""
import numpy as np
from ..rec import Violation

STATE = {}


def plan(tier, mode):
    k = 1 if tier == 'quick' else 30
    return [('cull', 16000 * k), ('frustum', 3000 * k), ('refused', 1500 * k)]


def setup(ctx):
    from vrml_accelerate import frustcullaccel
    from vrml import arrays
    assert arrays.frustcullaccel is frustcullaccel
    STATE['cull'] = arrays.frustcullaccel.planeCull


def layout(rng, rec, a):
    """The same float32 matrix in some memory layout"""
    a = np.asarray(a, 'f')
    k = rng.randrange(9)
    if k == 0:
        return np.asfortranarray(a)
    if k == 1:
        big = np.full((a.shape[0] * 2 + 1, a.shape[1] * 2 + 1), 1e9, 'f')
        big[:a.shape[0] * 2:2, :a.shape[1] * 2:2] = a
        rec.count('layout_strided')
        return big[:a.shape[0] * 2:2, :a.shape[1] * 2:2]
    if k == 2:
        rec.count('layout_reversed')
        return np.ascontiguousarray(a[::-1])[::-1]
    if k == 3:
        rec.count('layout_reversed')
        return np.ascontiguousarray(a[:, ::-1])[:, ::-1]
    if k == 4:
        b = a.copy()
        b.flags.writeable = False
        rec.count('layout_readonly')
        return b
    if k == 5 and a.size:
        # unaligned to anything but its item size
        b = np.empty(a.size + 1, 'f')[1:].reshape(a.shape)
        b[...] = a
        return b
    if k == 6:
        class Sub(np.ndarray):
            pass
        return a.view(Sub)
    return a.copy()


def number(rng):
    return rng.choice([0.0, 1.0, -1.0, rng.uniform(-1, 1), rng.uniform(-20, 20), rng.uniform(-1e4, 1e4)])


def model(planes, points, least):
    """(culled, index) or None where single precision cannot be sure"""
    for i, p in enumerate(planes.astype('d')):
        d = points[:, :3].astype('d') @ p[:3] + p[3]
        slack = 1e-5 * (np.abs(points[:, :3].astype('d')) @ np.abs(p[:3]) + abs(p[3]) + abs(least)) + 1e-30
        sure_front = d + least > slack
        sure_behind = d + least < -slack
        if np.all(sure_behind):
            return True, i
        if not np.any(sure_front):
            # exactly on the boundary is in front, if the arithmetic is exact
            whole = np.all(points[:, :3] == np.rint(points[:, :3])) and np.all(p == np.rint(p)) and least == round(least) and np.abs(points).max() < 1000 and np.abs(p).max() < 1000 and abs(least) < 1e5
            if not whole:
                return None
            if not np.any(d + least >= 0):
                return True, i
    return False, None


def judge(rec, planes, points, least, kw, what):
    want = model(planes, points, least)
    pk, qk = planes.copy(), points.copy()
    got = STATE['cull'](planes, points, **kw) if 'minDistance' in kw or not kw else STATE['cull'](planes, points, kw['positional'])
    data = 'planes %s\npoints %s\nminDistance %r\ngives %r' % (planes.tolist(), points.tolist(), least, got)
    if not np.array_equal(pk, planes, equal_nan=True) or not np.array_equal(qk, points, equal_nan=True):
        raise Violation('argument-changed', 'planeCull changed an argument', data)
    if not isinstance(got, tuple) or len(got) != 2 or not isinstance(got[0], (bool, np.bool_)):
        raise Violation('result-form', 'planeCull gives %r' % (got,), data)
    if want is None:
        rec.count('unsure')
        return
    culled, i = want
    if bool(got[0]) != culled:
        raise Violation('wrong-verdict', '%s: planeCull says culled=%r, plane %r of the model excludes the points: %r' % (what, got[0], i, culled), data)
    if culled:
        rec.count('culled')
        rec.count('culled_by_later_plane', i > 0)
        if got[1] is None or not np.array_equal(np.asarray(got[1]), planes[i]):
            raise Violation('wrong-plane', '%s: the first plane excluding all points is %d, %s, planeCull gives %s' % (what, i, planes[i], got[1]), data)
    else:
        rec.count('kept')
        if got[1] is not None:
            raise Violation('wrong-plane', 'planeCull gives a plane for points it does not cull', data)


def run_case(kind, index, rng, rec, ctx):
    if kind == 'cull':
        n, m = rng.choice([0, 1, 2, 3, 6, 6, 8]), rng.choice([0, 1, 1, 2, 8, 8, 8, 30, rng.randint(1, 200)])
        if rng.random() < .05:
            n, m = rng.choice([(rng.randint(10, 40), 8), (6, rng.randint(250, 1100)), (rng.randint(60, 140), 2)])
            rec.count('large')
        width = rng.choice([3, 4])
        if rng.random() < .4:
            planes = [[rng.randint(-3, 3) for _ in range(4)] for _ in range(n)]
            points = [[rng.randint(-5, 5) for _ in range(3)] + [1] * (width - 3) for _ in range(m)]
            least = rng.choice([0, 0, 1, -1, 3, 10, -2])
        else:
            planes = [[number(rng) for _ in range(4)] for _ in range(n)]
            points = [[number(rng) for _ in range(3)] + [rng.choice([1, 1, 0, 5, 1e6])] * (width - 3) for _ in range(m)]
            least = rng.choice([0, 0, rng.uniform(-5, 5), rng.uniform(0, 100), 1e4, -1e4])
        if n and rng.random() < .5:
            # just one point, anywhere, saves the volume; or none does
            planes = np.array(planes, 'f').reshape(n, 4)
            points = np.array(points, 'f').reshape(m, width)
            for i in range(n if m else 0):
                d = points[:, :3].astype('d') @ planes[i, :3].astype('d')
                j = rng.randrange(m)
                cut = np.partition(d, -1)[-1] if rng.random() < .6 else d[j]
                planes[i, 3] = np.rint(-cut - least + rng.choice([0, 1, -1, 5, -5]))
        planes = layout(rng, rec, np.array(planes, 'f').reshape(n, 4))
        points = layout(rng, rec, np.array(points, 'f').reshape(m, width))
        kw = {'minDistance': least} if least or rng.random() < .5 else {}
        if kw and rng.random() < .3:
            kw = {'positional': least}
        judge(rec, planes, points, least, kw, 'random planes')
        rec.maximum('points', m)
        rec.count('width_%d' % width)
        rec.nontrivial(planes.tobytes(), points.tobytes(), least)
        rec.sample('planes %s points %s minDistance %r' % (planes.tolist(), points.tolist(), least))
    elif kind == 'frustum':
        # a box against the six planes of a view volume
        near, far, w = rng.uniform(.1, 1), rng.uniform(5, 100), rng.uniform(.2, 2)
        planes = np.array([[0, 0, -1, -near], [0, 0, 1, far], [1, 0, -w, 0], [-1, 0, -w, 0], [0, 1, -w, 0], [0, -1, -w, 0]], 'f')
        order = list(range(6))
        rng.shuffle(order)
        planes = planes[order]
        c = np.array([rng.uniform(-60, 60), rng.uniform(-60, 60), rng.uniform(-120, 20)])
        s = np.array([rng.choice([.1, 1, 10, 50]) for _ in range(3)])
        box = np.array([[c[0] + a * s[0], c[1] + b * s[1], c[2] + d * s[2], 1] for a in (-1, 1) for b in (-1, 1) for d in (-1, 1)], 'f')
        least = rng.choice([0, 0, 0, rng.uniform(0, 10)])
        judge(rec, planes, box, least, {'minDistance': least}, 'a box in a view volume')
        rec.count('frustums')
        rec.nontrivial(planes.tobytes(), box.tobytes(), least)
    else:
        good_planes, good_points = np.array([[1, 0, 0, 1]], 'f'), np.array([[1, 2, 3]], 'f')
        k = rng.randrange(8)
        bad_planes = rng.choice([np.zeros((2, rng.choice([0, 1, 2, 3, 5, 8])), 'f'), np.zeros(4, 'f'), np.zeros((1, 4, 1), 'f'), np.zeros((2, 4), 'd'), np.zeros((2, 4), 'i'), [[1, 0, 0, 1]], 'planes', 5])
        bad_points = rng.choice([np.zeros((rng.choice([1, 3]), rng.choice([0, 1, 2, 5, 6])), 'f'), np.zeros(3, 'f'), np.zeros((1, 3, 1), 'f'), np.zeros((2, 3), 'd'), np.zeros((2, 4), 'i'), [[1, 2, 3]], 'points', 5])
        args = [(bad_planes, good_points), (good_planes, bad_points), (bad_planes, bad_points), (good_planes, good_points, rng.choice(['x', [1], object()]))][k % 4]
        try:
            got = STATE['cull'](*args)
        except (TypeError, ValueError):
            rec.count('refused')
        else:
            raise Violation('accepted', 'planeCull takes %r and gives %r' % (args, got))
        rec.nontrivial(repr([(type(a).__name__, getattr(a, 'shape', a), str(getattr(a, 'dtype', ''))) for a in args if not isinstance(a, object().__class__) or isinstance(a, (np.ndarray, str, int))]))
