"""A model of value flow: cells (node, field) joined by ROUTEs and IS mappings.

An assignment puts its value into every cell it reaches.  Edges are strict
(the value must arrive) or loose (nothing is promised either way)."""
import numpy as np
from . import gen, lib


def rep(v):
    """A value as something comparable"""
    if isinstance(v, np.ndarray):
        return ('array', v.dtype.str, v.shape, v.tobytes())
    if isinstance(v, lib.NullNode):
        return ('NULL',)
    if isinstance(v, lib.Node):
        return ('node', id(v))
    if isinstance(v, (list, tuple)):
        return ('list', tuple(rep(x) for x in v))
    return (type(v).__name__, repr(v))


class Flow:
    def __init__(self):
        self.cells = {}      # key -> (object, name, type)
        self.strict = {}
        self.loose = {}
        self.now = {}

    def key(self, o, name):
        f = lib.getField(o, name)
        k = (id(o), f.name)
        if k not in self.cells:
            self.cells[k] = (o, f.name, f.typeName())
        return k

    def watch(self, o, name):
        return self.key(o, name)

    def route(self, o1, f1, o2, f2):
        a, b = self.key(o1, f1), self.key(o2, f2)
        self.strict.setdefault(a, []).append(b)
        return a, b

    def unroute(self, a, b):
        self.strict[a].remove(b)

    def is_(self, inst, iname, dest, dname, access):
        a, b = self.key(inst, iname), self.key(dest, dname)
        self.strict.setdefault(a, [])
        self.strict.setdefault(b, [])
        (self.loose if access == 'eventOut' else self.strict).setdefault(a, []).append(b)
        (self.loose if access == 'eventIn' else self.strict).setdefault(b, []).append(a)

    def reach(self, start):
        must = self._bfs([start], [self.strict])
        may = self._bfs([start], [self.strict, self.loose])
        return must, may - must

    @staticmethod
    def _bfs(todo, maps):
        seen = set(todo)
        todo = list(todo)
        while todo:
            k = todo.pop()
            for m in maps:
                for n in m.get(k, ()):
                    if n not in seen:
                        seen.add(n)
                        todo.append(n)
        return seen

    def read(self, k):
        o, name, typ = self.cells[k]
        try:
            return lib.getField(o, name).__get__(o)
        except AttributeError:
            return None

    def load(self):
        """Take the present values"""
        for k in self.cells:
            self.now[k] = rep(self.read(k))

    def describe(self, k):
        o, name, typ = self.cells[k]
        return '%s %s.%s' % (typ, lib.defName(o) or type(o).__name__, name)

    def after(self, start, want):
        """Problems after `want` (canonical value) was assigned to `start`"""
        must, may = self.reach(start)
        want = rep(want)
        out = []
        for k in self.cells:
            got = rep(self.read(k))
            if k in must:
                ok = got == want
                what = 'not-arrived' if k != start else 'not-stored'
            elif k in may:
                ok = got in (want, self.now[k])
                what = 'loose'
            else:
                ok = got == self.now[k]
                what = 'changed-elsewhere'
            if not ok:
                out.append((what, '%s is %r after %r was assigned to %s (before: %r)' % (self.describe(k), got, want, self.describe(start), self.now[k])))
            self.now[k] = got
        return out, must


def canonical(typ, value):
    cls = lib.field.baseFieldTypes[typ]
    return cls('x', 1).coerce(value)


def new_value(rng, typ, b):
    """(AST or None, python value) for a cell of the type"""
    if typ == 'SFNode':
        return None, rng.choice([lib.NULL, lib.basenodes.Box(), lib.basenodes.Material(), lib.basenodes.Group(), lib.basenodes.Sphere()])
    if typ == 'MFNode':
        return None, [rng.choice([lib.basenodes.PointLight, lib.basenodes.Group, lib.basenodes.Shape])() for _ in range(rng.randint(0, 3))]
    ast = gen.gvalue(rng, typ)
    return ast, b.value(typ, ast)
