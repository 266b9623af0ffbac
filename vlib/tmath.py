"""Float64 reference for VRML97 transformation matrices, written from the specification:
P' = T C R SR S -SR -C P, here for row vectors (dot(point, matrix))."""
import math
import numpy as np

FIELDS = ('translation', 'center', 'rotation', 'scale', 'scaleOrientation')
IDENTITY = {'translation': (0, 0, 0), 'center': (0, 0, 0), 'rotation': (0, 1, 0, 0), 'scale': (1, 1, 1), 'scaleOrientation': (0, 1, 0, 0)}


def trans(v, sign=1):
    m = np.identity(4)
    m[3, :3] = sign * np.asarray(v, 'd')[:3]
    return m


def scale(v, inverse=False):
    v = np.asarray(v, 'd')[:3]
    m = np.identity(4)
    for i in range(3):
        m[i, i] = 1 / v[i] if inverse else v[i]
    return m


def rot(r, sign=1):
    """Right-handed rotation about an axis (row-vector form)"""
    x, y, z, a = [float(c) for c in r]
    length = math.sqrt(x * x + y * y + z * z)
    if not length:
        x, y, z, length = 0.0, 1.0, 0.0, 1.0
    k = np.array([x, y, z]) / length
    a *= sign
    K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
    m = np.identity(4)
    m[:3, :3] = (math.cos(a) * np.identity(3) + math.sin(a) * K + (1 - math.cos(a)) * np.outer(k, k)).T
    return m


def factors(values, inverse=False):
    """The factors of a local matrix from left to right, as multiplied for row vectors"""
    v = dict(IDENTITY)
    v.update({k: w for k, w in values.items() if w is not None})
    T, C, R, S, SO = v['translation'], v['center'], v['rotation'], v['scale'], v['scaleOrientation']
    if not inverse:
        return [trans(C, -1), rot(SO, -1), scale(S), rot(SO), rot(R), trans(C), trans(T)]
    return [trans(T, -1), trans(C, -1), rot(R, -1), rot(SO, -1), scale(S, True), rot(SO), trans(C)]


def product(fs):
    """(product, measure of what single precision may lose in each component)"""
    m, size = np.identity(4), np.identity(4)
    for f in fs:
        m = m @ f
        a = np.abs(f)
        r = a[:3, :3]
        if r.sum() != np.trace(r):
            r += .1      # the entries of a rotation are sure to an absolute, not a relative error
        size = size @ a
    return m, size


def of_path(nodes, flags, inverse=False):
    """nodes: list of dicts from root to leaf"""
    translate, sc, rotate = flags
    fs = []
    for values in (nodes if inverse else reversed(nodes)):
        use = {}
        for name in FIELDS:
            if (name == 'translation' and translate) or (name == 'center' and (sc or rotate)) or (name in ('scale', 'scaleOrientation') and sc) or (name == 'rotation' and rotate):
                use[name] = values.get(name)
        fs.extend(factors(use, inverse))
    return product(fs)


def close(got, want, size, rel=4e-5):
    """None is identity in this library"""
    if got is None:
        got = np.identity(4)
    got = np.asarray(got)
    if got.shape != (4, 4):
        return False
    got = got.astype('d')
    return bool(np.all(np.isfinite(got))) and bool(np.all(np.abs(got - want) <= rel * size + 1e-7))
