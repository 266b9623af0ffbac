"""Field values by type: canonical form, spellings that mean it, and values that mean nothing."""
import struct
import numpy as np
from . import css, lib

# type -> (kind, dtype, dimension)
TYPES = {
    'SFBool': ('bool', None, None), 'SFInt32': ('int', None, None), 'SFUInt32': ('int', None, None), 'SFFloat': ('float', None, None), 'SFTime': ('float', None, None),
    'SFString': ('string', None, None), 'MFString': ('strings', None, None),
    'MFInt32': ('ints', 'i', None), 'MFUInt32': ('ints', 'I', None), 'SFImage': ('ints', 'I', None),
    'MFFloat': ('floats', 'd', None), 'MFFloat32': ('floats', 'f', None), 'MFTime': ('floats', 'd', None),
    'SFColor': ('vec', 'f', (3,)), 'MFColor': ('vecs', 'f', (3,)), 'SFRotation': ('vec', 'f', (4,)), 'MFRotation': ('vecs', 'd', (4,)),
}
for _n in (2, 3, 4):
    for _c, _d in (('f', 'f'), ('d', 'd')):
        TYPES['SFVec%d%s' % (_n, _c)] = ('vec', _d, (_n,))
        TYPES['MFVec%d%s' % (_n, _c)] = ('vecs', _d, (_n,))
for _n in (3, 4):
    for _c in 'fd':
        TYPES['MFMatrix%d%s' % (_n, _c)] = ('vecs', _c, (_n, _n))
MATRICES = {'SFMatrix%d%s' % (n, c): ('vec', c, (n, n)) for n in (3, 4) for c in 'fd'}
ALL = dict(TYPES, **MATRICES)
NODE_TYPES = ('SFNode', 'MFNode')
VRML97 = ('SFBool', 'SFInt32', 'SFFloat', 'SFTime', 'SFString', 'MFString', 'MFInt32', 'SFImage', 'MFFloat', 'MFTime', 'SFColor', 'MFColor', 'SFRotation', 'MFRotation',
          'SFVec2f', 'MFVec2f', 'SFVec3f', 'MFVec3f', 'SFNode', 'MFNode')


def field_class(typ):
    return lib.field.baseFieldTypes.get(typ) or getattr(lib.fieldtypes, typ)


def number(rng, color=False, whole=False):
    if whole:
        return float(rng.randint(-99, 99) if not color else rng.randint(0, 1))
    if color:
        return rng.choice([rng.random(), rng.random(), 0.0, 1.0, .5, rng.uniform(-2, 3)])
    k = rng.randrange(6)
    if k == 0:
        return float(rng.randint(-1000, 1000))
    if k == 1:
        v = struct.unpack('<f', struct.pack('<I', rng.getrandbits(32)))[0]
        return v if v == v and abs(v) < 3e38 else 0.1
    if k == 2:
        return rng.choice([0.0, -0.0, 1.0, .1, 1 / 3, 1e-40, 3e38, 16777217.0, 1e10])
    return rng.uniform(-100, 100)


def base(rng, typ):
    """A canonical value as nested Python: scalar, flat list or list of flat lists"""
    kind, dt, dim = ALL[typ]
    color = 'Color' in typ
    whole = rng.random() < .3
    if kind == 'bool':
        return rng.random() < .5
    if kind == 'int':
        lo = 0 if typ[2] == 'U' else -2 ** 31
        return rng.choice([0, 1, 7, lo, 2 ** 31 - 1, rng.randint(lo, 2 ** 31 - 1)])
    if kind == 'float':
        return number(rng, whole=whole)
    if kind == 'string':
        return rng.choice(['', 'abc', 'a b', '"q"', '\\', 'é', '日本', '\n', '5', '%s', ' x '])
    if kind == 'strings':
        return [rng.choice(['', 'abc', 'a b', '"q"', 'é', '\n', '5']) for _ in range(rng.choice([0, 1, 2, 5]))]
    n = rng.choice([0, 1, 2, 3, 4, 7, 12])
    if kind == 'ints':
        lo, hi = (-2 ** 31, 2 ** 31 - 1) if dt == 'i' else (0, 2 ** 32 - 1)
        return [rng.choice([0, 1, lo, hi, rng.randint(lo, hi), rng.randint(0, 200)]) for _ in range(n)]
    if kind == 'floats':
        return [number(rng, whole=whole) for _ in range(n)]
    size = int(np.prod(dim))
    if kind == 'vec':
        return [number(rng, color, whole) for _ in range(size)]
    return [[number(rng, color, whole) for _ in range(size)] for _ in range(n)]


def expected(typ, v):
    """The canonical object for a base value"""
    kind, dt, dim = ALL[typ]
    with np.errstate(all='ignore'):
        if kind in ('ints', 'floats'):
            return np.array(v, dt)
        if kind == 'vec':
            a = np.array(v, dt).reshape(dim)
        elif kind == 'vecs':
            a = np.array(v, dt).reshape((len(v),) + dim)
        elif kind == 'bool':
            return int(v)
        else:
            return v
    if 'Color' in typ:
        a = np.minimum(np.maximum(a, np.array(0, dt)), np.array(1, dt))
    return a


def is_canonical(typ, got, want):
    """Problem with a stored value, or None"""
    kind, dt, dim = ALL[typ]
    if kind == 'bool':
        ok = isinstance(got, (bool, int)) and got in (0, 1) and bool(got) == bool(want)
        return None if ok else 'not the truth value %r' % want
    if kind == 'int':
        return None if type(got) is int and got == want else 'not the int %r' % want
    if kind == 'float':
        return None if isinstance(got, float) and repr(float(got)) == repr(float(want)) else 'not the float %r' % want
    if kind == 'string':
        return None if type(got) is str and got == want else 'not the string %r' % want
    if kind == 'strings':
        return None if type(got) is list and all(type(x) is str for x in got) and got == want else 'not the list of strings %r' % want
    if not isinstance(got, np.ndarray):
        return 'not an array'
    if got.dtype != np.dtype(dt):
        return 'dtype %s, not %s' % (got.dtype, np.dtype(dt))
    if got.shape != want.shape:
        return 'shape %s, not %s' % (got.shape, want.shape)
    if not got.flags.c_contiguous:
        return 'not contiguous'
    if not np.array_equal(got, want):
        return 'not %r' % want
    return None


def nest(flat, dim):
    if len(dim) == 1:
        return list(flat)
    n = len(flat) // dim[0]
    return [list(flat[i * n:(i + 1) * n]) for i in range(dim[0])]


def text(rng, numbers):
    sep = rng.choice([' ', ', ', ',', '  ', '\n', ' , ', '\t'])
    return rng.choice(['', ' ']) + sep.join(repr(x) for x in numbers) + rng.choice(['', ' '])


def arrays_of(rng, a):
    """Array spellings of an array (same values): (label, object)"""
    k = rng.randrange(7)
    if k == 0:
        return 'array', np.array(a)
    if k == 1 and a.ndim:
        big = np.zeros((a.shape[0] * 2,) + a.shape[1:], a.dtype)
        big[::2] = a
        return 'strided-array', big[::2]
    if k == 2 and a.ndim:
        return 'reversed-array', np.array(a[::-1])[::-1]
    if k == 3 and a.ndim == 2:
        return 'transposed-array', np.ascontiguousarray(a.T).T
    if k == 4:
        return 'fortran-array', np.array(a, order='F')
    if k == 5 and a.dtype.kind == 'f':
        return 'big-endian-array', a.astype(a.dtype.newbyteorder('>'))
    b = np.array(a)
    b.setflags(write=False)
    return 'read-only-array', b


def spelling(rng, typ, v):
    """(label, Python value, expected) for a base value in one of the spellings the type accepts"""
    kind, dt, dim = ALL[typ]
    want = expected(typ, v)
    if kind == 'bool':
        return rng.choice([('bool', bool(v)), ('int', int(v)), ('numpy', np.bool_(v)), ('float', 2.5 if v else 0.0), ('text', rng.choice(['TRUE', 'true', 'True', 'tRUE', '1', ' 1 ', '7', '-1']) if v else rng.choice(['FALSE', 'false', 'False', 'fAlsE', '0', ' 0', '00']))]) + (want,)
    if kind == 'int':
        return rng.choice([('int', v), ('text', '%d' % v), ('float', float(v)), ('numpy', np.int64(v))]) + (want,)
    if kind == 'float':
        if v == int(v) and rng.random() < .5 and v:
            return 'int', int(v), want
        return rng.choice([('float', v), ('text', repr(v)), ('numpy', np.float64(v))]) + (want,)
    if kind == 'string':
        return rng.choice([('str', v), ('bytes', v.encode('utf8')), ('one-item', [v]), ('one-item', (v,)), ('pieces', [v[:1], v[1:]]), ('pieces', tuple(v) if len(v) > 1 else [v])]) + (want,)
    if kind == 'strings':
        if len(v) == 1 and rng.random() < .4:
            return 'str', v[0], want
        return rng.choice([('list', list(v)), ('tuple', tuple(v)), ('map', map(str, v)), ('bytes', [x.encode('utf8') for x in v])]) + (want,)
    if kind == 'ints':
        if not v and rng.random() < .5:
            return 'empty', rng.choice([None, (), [], np.zeros(0)]), want
        if len(v) == 1 and rng.random() < .3:
            return 'number', v[0], want
        k = rng.randrange(6)
        if k == 0:
            return 'list', list(v), want
        if k == 1:
            return 'tuple', tuple(v), want
        if k == 2:
            return 'text', text(rng, v), want
        if k == 3:
            return 'map', map(int, v), want
        if k == 4:
            return ('int64-array', np.array(v, 'q'), want) if rng.random() < .5 else ('float-array', np.array(v, 'd'), want)
        label, a = arrays_of(rng, want)
        return label, a, want
    if kind == 'floats':
        if not v and rng.random() < .5:
            return 'empty', rng.choice([None, (), [], np.zeros(0, 'f')]), want
        if len(v) == 1 and rng.random() < .3:
            return 'number', v[0], want
        k = rng.randrange(7)
        if k == 0:
            return 'list', list(v), want
        if k == 1:
            return 'tuple', tuple(v), want
        if k == 2:
            return 'text', text(rng, v), want
        if k == 3:
            return 'map', map(float, v), want
        if k == 4:
            return 'nested', [list(v[:1]), list(v[1:])], want
        if k == 5:
            other = np.array(v, 'f' if dt == 'd' else 'd')
            return 'other-dtype', other, other.astype(dt)
        label, a = arrays_of(rng, want)
        return label, a, want
    color = 'Color' in typ
    raw = expected(typ.replace('SFColor', 'SFVec3f').replace('MFColor', 'MFVec3f'), v)     # not clamped
    if kind == 'vec':
        k = rng.randrange(8)
        if k == 0:
            return 'list', list(v), want
        if k == 1:
            return 'tuple', tuple(v), want
        if k == 2 and not color:
            return 'text', text(rng, v), want
        if k == 3:
            return 'map', map(float, v), want
        if k == 4 and len(dim) == 2:
            return 'rows', nest(v, dim), want
        if k == 4:
            return 'one-row', [list(v)], want
        if k == 5 and all(x == int(x) and abs(x) < 2 ** 24 for x in v):
            return 'ints', rng.choice([[int(x) for x in v], np.array([int(x) for x in v], rng.choice('iq'))]), want
        if k == 6:
            # the other precision: what arrives is what that precision held
            other = np.array(v, 'd' if dt == 'f' else 'f').reshape(dim)
            w = other.astype(dt)
            return 'other-dtype', other, np.clip(w, 0, 1) if color else w
        label, a = arrays_of(rng, raw)
        return label, a, want
    if not v and rng.random() < .5:
        return 'empty', rng.choice([(), [], np.zeros(0, dt), np.zeros((0,) + dim, dt)]), want
    k = rng.randrange(9)
    if k == 0:
        return 'rows', [nest(r, dim) for r in v], want
    if k == 1:
        return 'tuples', tuple(tuple(r) for r in v) if len(dim) == 1 else [nest(r, dim) for r in v], want
    if k == 2:
        return 'flat', [x for r in v for x in r], want
    if k == 3 and not color and typ != 'MFColor':
        return 'text', text(rng, [x for r in v for x in r]), want
    if k == 4 and len(dim) == 1 and v:
        return 'zip', zip(*[[r[i] for r in v] for i in range(dim[0])]), want
    if k == 5 and len(dim) == 1:
        return 'list-of-arrays', [np.array(r, dt) for r in v], want
    if k == 6:
        other = np.array(v, 'd' if dt == 'f' else 'f').reshape((len(v),) + dim)
        w = other.astype(dt)
        return 'other-dtype', other, np.clip(w, 0, 1) if color else w
    if k == 7:
        return 'flat-array', np.array([x for r in v for x in r], dt), want
    label, a = arrays_of(rng, raw)
    return label, a, want


class Thing:
    """Nothing a field can hold"""


BADTEXT = ('abc', '1.5.2', '1 2 x', 'one', '--1', '0x', '1e', '1 2 3 4 5 6 7 y', '#nothex', '!')


def junk(rng):
    return rng.choice([('object', Thing()), ('class', Thing), ('function', junk), ('dict', {'a': 1}), ('node', lib.basenodes.Box()), ('complex', 1j), ('set', {Thing()}), ('range-of-text', ['x', 'y', 'z'])])


def wrong(rng, typ):
    """(label, value) that no field of the type may accept"""
    if typ == 'SFNode':
        b = lib.basenodes.Box
        return rng.choice([('text', 'Box'), ('number', 5), ('object', Thing()), ('two-nodes', [b(), b()]), ('no-nodes', []), ('no-nodes', ()), ('class', b), ('dict', {1: b()}),
                           ('number-in-list', [5]), ('text-in-list', ['x']), ('array', np.zeros(3)), ('bytes', b'Box'), ('zero', 0), ('empty-text', ''), ('false', False), ('nested', [[b(), b()]])])
    if typ == 'MFNode':
        b = lib.basenodes.Box
        return rng.choice([('text', 'Box'), ('number', 5), ('object', Thing()), ('class', b), ('dict', {1: b()}), ('bad-item', [b(), 5]), ('bad-item', [b(), 'Box', b()]), ('bad-item', (Thing(),)),
                           ('bad-item', [b(), b(), b]), ('bad-item-map', map(lambda x: x, [b(), 3])), ('list-in-list', [b(), [b(), b()]]), ('array', np.ones(3)), ('bytes', b'Box'), ('number-last', [b(), b(), 0])])
    kind, dt, dim = ALL[typ]
    if kind == 'bool':
        return rng.choice([('array', np.zeros(3)), ('array', np.ones((2, 2)))])
    if kind in ('int', 'float'):
        out = [('bad-text', rng.choice(BADTEXT)), ('empty-text', ''), ('list', [1]), ('list', (1.0, 2)), ('none', None), ('array', np.zeros(3)), ('complex', 1j), junk(rng)]
        if kind == 'int':
            out += [('fraction-text', '1.5'), ('infinite', float('inf')), ('nan', float('nan'))]
        return rng.choice(out)
    if kind == 'string':
        return rng.choice([('bad-utf8', b'\xff\xfe'), ('number-in-list', ['a', 5]), ('number-in-list', (1, 2)), ('node-in-list', ['a', lib.basenodes.Box()])])
    if kind == 'strings':
        return rng.choice([('number', 5), ('none', None), ('bad-utf8', ['a', b'\xff']), ('node', lib.basenodes.Box()), ('object', Thing()), ('float', 1.5), ('bad-item', [['a', 5]])])
    words = [str(x) if dt in 'iI' and kind == 'ints' else repr(float(x)) for x in range(12)]
    bad = rng.choice(BADTEXT[:7] if 'Color' not in typ else ('abcd', '1 2 x', 'notacolor', '#ggg', '#12345', '#gggggg', '#', '#1', '#ff00', '#ff00zz', '#fg0', '# ff0', '#1234567', '#fffffff0', 'rgb(1,2,3)', 'redd', ' ', '#12é'))
    if kind in ('ints', 'floats'):
        i = rng.randint(0, 4)
        nums = [1, 2, 3, 4]
        mixed = lambda x: nums[:i] + [x] + nums[i:]
        out = [('bad-text', bad), ('bad-text', ' '.join(words[:i] + ['x'] + words[i:4])), ('bad-item', mixed('x')), ('bad-item', tuple(mixed(None))), ('bad-item', mixed(Thing())), ('bad-item', mixed(lib.basenodes.Box())),
               ('bad-item', mixed(1j)), ('bad-item-map', map(lambda x: x, mixed('y'))), ('text-array', np.array(['a', 'b'])), junk(rng)]
        if kind == 'ints':
            out += [('list-in-list', mixed([1, 2])), ('infinite', mixed(float('inf'))), ('nan', mixed(float('nan'))), ('out-of-range', mixed(2 ** 70)), ('out-of-range', 2 ** 70), ('out-of-range', '1 %d' % 2 ** 70), ('fraction-text', '1 2.5')]
        return rng.choice(out)
    size = int(np.prod(dim))
    if kind == 'vec':
        n = rng.choice([k for k in range(0, 2 * size + 2) if k != size])
    else:
        n = rng.choice([k for k in range(1, 3 * size + 2) if k % size])
    nums = [float(x) for x in range(n)]
    right = [float(x) for x in range(size if kind == 'vec' else size * rng.randint(1, 3))]
    i = rng.randrange(len(right))
    mixed = lambda x: right[:i] + [x] + right[i + 1:]
    out = [('count-list', nums), ('count-tuple', tuple(nums)), ('count-array', np.array(nums)), ('count-array', np.array(nums, 'f')), ('count-map', map(float, nums)),
           ('bad-item', mixed(Thing())), ('bad-item', mixed(lib.basenodes.Box())), ('bad-item', mixed(1j)), ('bad-item', tuple(mixed({}))),
           ('text-array', np.array(['a', 'b', 'c'])), junk(rng)]
    if typ != 'MFColor':
        out += [('bad-item', mixed('x')), ('bad-item-map', map(lambda x: x, mixed('y')))]
        if 'Color' not in typ:
            out += [('count-text', ' '.join(map(repr, nums))), ('bad-text', ' '.join(map(str, mixed('x'))))]
    else:
        out += [('bad-name', ['red', 'nosuchcolor']), ('bad-name', [0.5, 0.5, 0.5, 'nosuch']), ('short-mixture', ['red', 0.5, 0.5]), ('short-mixture', [0.5, 'red', 0.5, 0.5])]
    if typ == 'SFColor':
        out += [('bad-text', bad)]
    if kind == 'vecs' and len(dim) == 1:
        ragged = [[1.0] * size, [1.0] * (size - 1)]
        out += [('ragged', ragged), ('ragged', [[1.0] * (size + 1), [1.0] * size, [1.0] * size])]
    if kind == 'vec':
        out += [('none', None), ('count-nested', [nums]), ('two', [right, right]), ('two', np.array([right, right]))]
    return rng.choice(out)
