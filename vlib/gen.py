"""Random VRML97 documents as ASTs, written to text by an emitter of our own,
and compared with what the library built.  Nothing here imports the library's
parser or lineariser: the AST is the oracle."""
import math
import numpy as np
from . import spec97
from .spec97 import NODES, ALLOWED

# the field types the library has beyond those of VRML97: name -> dtype, width of a row
EXTRA = {'SFUInt32': 'I', 'MFUInt32': 'I', 'MFFloat32': 'f', 'SFArray': 'd', 'SFArray32': 'f'}
SHAPES, WIDTH, MWIDTH = {}, dict(spec97.WIDTH), dict(spec97.MWIDTH)
for _d in 'fd':
    for _n in (2, 3, 4):
        if (_n, _d) not in ((2, 'f'), (3, 'f')):
            WIDTH['SFVec%d%s' % (_n, _d)] = MWIDTH['MFVec%d%s' % (_n, _d)] = _n
            EXTRA['SFVec%d%s' % (_n, _d)] = EXTRA['MFVec%d%s' % (_n, _d)] = _d
    for _n in (3, 4):
        for _s, _w in (('S', WIDTH), ('M', MWIDTH)):
            _t = '%sFMatrix%d%s' % (_s, _n, _d)
            _w[_t], EXTRA[_t], SHAPES[_t] = _n * _n, _d, (_n, _n)

RESERVED = {'DEF', 'EXTERNPROTO', 'FALSE', 'IS', 'NULL', 'PROTO', 'ROUTE', 'TO', 'TRUE', 'USE', 'eventIn', 'eventOut',
            'exposedField', 'field', 'Script'}


class Node:
    def __init__(self, type, kind='std', name=None, decl=None):
        self.type, self.kind, self.name, self.decl = type, kind, name, decl
        self.values = {}     # field -> AST value
        self.members = []    # document order: ('field', f) ('is', f, iface) ('route', Route) ('proto', Proto) ('decl', Iface, isname)
        self.iface = []      # Script declarations (Iface)
        self.refs = 0

    def __repr__(self):
        return '<%s %s>' % (self.type, self.name)


class Iface:
    def __init__(self, access, type, name, default=None):
        self.access, self.type, self.name, self.default = access, type, name, default

    @property
    def is_field(self):
        return self.access in ('field', 'exposedField')


class Proto:
    def __init__(self, name):
        self.name, self.iface, self.body, self.url = name, [], None, None
        self.category = 'children'
        self.maps = []       # (iface name, body Node, field name)


class Route:
    def __init__(self, src, sf, dst, df):
        self.src, self.sf, self.dst, self.df = src, sf, dst, df


class Scene:
    def __init__(self):
        self.items = []      # ('node', Node) ('route', Route) ('proto', Proto)
        self.routes = []     # in document order, those of node bodies included
        self.protos = {}     # name -> Proto declared in this scope
        self.defs = {}       # name -> Node, at the end
        self.nodes = []      # all distinct nodes in document order

    def roots(self):
        return [i[1] for i in self.items if i[0] == 'node']


def nest(rng, ast, depth):
    """Put a root node of the scene below many grouping nodes"""
    at = [i for i, item in enumerate(ast.items) if item[0] == 'node']
    if not at:
        return 0
    i = rng.choice(at)
    n = ast.items[i][1]
    for _ in range(depth):
        kind, f = rng.choice([('Group', 'children'), ('Transform', 'children'), ('Anchor', 'children'), ('Billboard', 'children'), ('Collision', 'children'), ('Switch', 'choice'), ('LOD', 'level')])
        outer = Node(kind)
        outer.values[f] = [n]
        outer.members.append(('field', f))
        ast.nodes.append(outer)
        n = outer
    ast.items[i] = ('node', n)
    return depth


# ------------------------------------------------------------------ numbers
def fnum(rng, lo=None, hi=None):
    """text of a VRML97 float"""
    if lo is not None:
        k = rng.random()
        if k < .3:
            v = rng.choice([lo, hi, (lo + hi) / 2])
        else:
            v = rng.uniform(lo, hi)
        t = repr(round(v, rng.randint(0, 7)))
    else:
        k = rng.randrange(12)
        if k < 3:
            t = str(rng.randint(-20, 20))
        elif k < 6:
            t = repr(round(rng.uniform(-100, 100), rng.randint(1, 6)))
        elif k == 6:
            t = '%.*e' % (rng.randint(0, 7), rng.uniform(-1, 1) * 10.0 ** rng.randint(-30, 30))
        elif k == 7:
            t = rng.choice(['0', '-0', '0.0', '1', '-1', '1.0', '0.1', '0.333333333', '16777217', '3.4e38', '1e-40', '123456789.125', '100000000000000000000'])
        elif k == 8:
            t = '%d.' % rng.randint(0, 99)
        elif k == 9:
            t = '.%d' % rng.randint(0, 999)
        elif k == 10:
            t = '%s%s%s%0*d' % (rng.choice(['1', '2.5', '-7.25', '.5', '3.']), rng.choice('eE'), rng.choice(['', '+', '-']), rng.choice([1, 1, 2, 3, 4]), rng.randint(0, 12))
        else:
            t = '0' * rng.randint(1, 2) + repr(round(rng.uniform(0, 50), 3))
    if t.startswith('0.') and t[2:3].isdigit() and rng.random() < .3:
        t = t[1:]
    if t[0] not in '+-' and rng.random() < .05:
        t = '+' + t
    return t


def tnum(rng):
    """text of a VRML97 time (double precision)"""
    if rng.random() < .6:
        return fnum(rng)
    return rng.choice(['%r' % (rng.uniform(0, 2e9)), '%.*e' % (rng.randint(0, 17), rng.uniform(-1, 1) * 10.0 ** rng.randint(-300, 300)), '1e100', '-2.5E-0200',
                       '1.7976931348623157e308', '5e-324', '9007199254740993', '%d' % rng.randint(0, 10 ** 18), '%.9f' % rng.uniform(0, 2e9)])


def inum(rng, unsigned=False):
    k = rng.randrange(8)
    if k < 4:
        t = str(rng.randint(0 if unsigned else -50, 200))
    elif k == 4:
        t = str(rng.choice([0, 1, 2147483647, 255, 65536] + ([4294967295] if unsigned else [-1, -2147483648])))
    elif k == 5:
        t = '0' * rng.randint(1, 3) + str(rng.randint(0, 999))
    else:
        v = rng.randint(0, 0xFFFFFFFF if unsigned else 0x7FFFFFFF) >> rng.choice([0, 8, 16, 24])
        t = rng.choice(['0x%x', '0x%X', '0X%x', '0x%08X'])% v
        if not unsigned and rng.random() < .1:
            t = '-' + t
    if t[0] not in '+-' and rng.random() < .05:
        t = '+' + t
    return t


def ival(t):
    sign = -1 if t[0] == '-' else 1
    t = t.lstrip('+-')
    return sign * (int(t[2:], 16) if t[:2] in ('0x', '0X') else int(t, 10))


def f32(t):
    with np.errstate(all='ignore'):
        return np.float32(float(t))


CHARS = ['a', 'B', ' ', '  ', '0', '#', '{', '}', '[', ']', ',', '.', '\\', '"', "'", '\n', '\t', '\r', 'é', '日', '\U0001F600', 'IS', 'DEF x',
         'USE', 'NULL', 'TRUE', '//', '%s', '%(indent)s', '\\n', '\\"', '\\\\', 'http://h/p?q=1&r', 'javascript: function f(v) { return "v"; }',
         '\x00', '\x7f', '&amp;', '$', '`', '-', '_']


def gstring(rng, hard=True):
    k = rng.random()
    if k < .12:
        return ''
    if k < .35 or not hard:
        return rng.choice(['abc', 'a b', 'Hello, World', 'x.wrl', 'urn:x:y#z', 'PLAIN'])
    s = ''.join(rng.choice(CHARS) for _ in range(rng.randint(1, 9)))
    if rng.random() < .06:
        s *= rng.randint(5, 40)
    return s


def gvalue(rng, typ, hard=True, big=False):
    """AST of a value of a non-node type"""
    n = rng.choice([0, 1, 1, 2, 3, 5]) if not big else rng.choice([40, 99, 100, 101, 130, 250] * 3 + [420, 1030])
    if typ == 'SFBool':
        return rng.random() < .5
    if typ == 'SFInt32':
        return inum(rng)
    if typ == 'SFFloat':
        return fnum(rng)
    if typ == 'SFTime':
        return tnum(rng)
    if typ == 'SFString':
        return gstring(rng, hard)
    if typ == 'MFString':
        return [gstring(rng, hard) for _ in range(min(n, 130))]
    if typ == 'SFUInt32':
        return inum(rng, True)
    if typ == 'MFUInt32':
        return [inum(rng, True) for _ in range(n)]
    if typ == 'MFFloat32':
        return [fnum(rng) for _ in range(n)]
    if typ in ('SFArray', 'SFArray32'):
        shape = [n] + [rng.randint(1, 3) for _ in range(rng.choice([0, 0, 1, 1, 2]))]
        if big and rng.random() < .3:
            shape = [rng.choice([1001, 1200])]
        one = lambda: tnum(rng) if typ == 'SFArray' else fnum(rng)
        make = lambda shape: [make(shape[1:]) if shape[1:] else one() for _ in range(shape[0])]
        return make(shape)
    if typ == 'MFInt32':
        return [inum(rng) for _ in range(n)]
    if typ == 'MFFloat':
        return [fnum(rng) for _ in range(n)]
    if typ == 'MFTime':
        return [tnum(rng) for _ in range(n)]
    if typ == 'SFImage':
        w, h, c = rng.randint(0, 3), rng.randint(0, 3), rng.randint(0, 4)
        if big:
            w, h, c = rng.randint(9, 12), rng.randint(9, 12), rng.randint(1, 4)
        return [str(w), str(h), str(c)] + [inum(rng, True) for _ in range(w * h)]
    col = typ.endswith('Color')
    one = (lambda: fnum(rng, 0.0, 1.0)) if col else (lambda: fnum(rng))
    if EXTRA.get(typ) == 'd':
        one = lambda: tnum(rng)
    if col and rng.random() < .1:
        one = lambda: fnum(rng, -1.0, 2.0)
    if typ in WIDTH:
        return [one() for _ in range(WIDTH[typ])]
    return [[one() for _ in range(MWIDTH[typ])] for _ in range(n)]


# ---------------------------------------------------------------- generator
# documents with many nodes, names, ROUTEs and children, and deeper PROTOs than usual
LARGE = dict(size=500, depth=9, roots=(90, 200), wide=.03, protodepth=6, nestrate=.7, minprotos=1, maxprotos=5, prate=.02, routerate=.3, use=.25, bigvalues=.005)
FAMILIAR = ['translation', 'children', 'size', 'radius', 'choice', 'set_translation', 'isActive', 'description', 'value_changed', 'fraction_changed',
            'set_fraction', 'url', 'string', 'diffuseColor', 'point', 'coord', 'appearance', 'whichChoice', 'on', 'startTime', 'type', 'info', 'set_on', 'color_changed']
DEFAULT_FLAGS = dict(protos=True, scripts=True, routes=True, externs=True, dup=False, shadow=True, weird=True, hard=True,
                     inner=True, events=True, use=.3, size=25, depth=4, nodefields=True, bigvalues=.02, scopedname=True, nameddefaults=True, prate=.12, irate=.3,
                     israte=.6, minprotos=0, maxprotos=2, moreiface=False, nestrate=.2, roots=(1, 6), routerate=.18, protodepth=3, wide=0,
                     types=spec97.TYPES, own={}, ownrate=.4)


class Gen:
    def __init__(self, rng, **flags):
        self.rng = rng
        self.f = dict(DEFAULT_FLAGS)
        self.f.update(flags)
        self.budget = self.f['size']
        self.n = 0
        self.scopes = []       # (Scene, {name: Node} currently visible, [open nodes], Proto or None)
        self.stats = {}

    def stat(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    # -- names
    def ident(self, prefix):
        rng = self.rng
        self.n += 1
        if self.f['weird'] and rng.random() < .35:
            base = rng.choice(['IS', 'DEF', 'USE', 'TRUE', 'NULL', 'ROUTE', 'TO', 'PROTO', 'Script', 'field', 'eventIn', 'é', '日本', '_', 'x-y', 'a+b',
                               '$', '@', 'a:b', '!', '%', '&', '*', '/', '<', '=', '>', '?', '^', '|', '~', '`', '(', ')', ';', 'EXTERNPROTO', 'Box', 'FALSE',
                               'SFNode', 'e1'])
            t = base + rng.choice(['', '_', '-', 'x', '+']) + str(self.n)
            if rng.random() < .5:
                t += rng.choice(['z', '_', '-', '+q', 'é', '%d'])
            return t
        return '%s%s%d' % (prefix, rng.choice(['', '_', 'Name']), self.n)

    def iface_name(self, prefix, taken):
        """A name for a field or event of an interface, often one that standard nodes use too"""
        rng = self.rng
        if self.f['weird'] and rng.random() < .3:
            t = rng.choice(FAMILIAR)
            stem = lambda x: x[4:] if x.startswith('set_') else x[:-8] if x.endswith('_changed') else x
            if stem(t) not in [stem(x) for x in taken]:
                self.stat('familiar_names')
                return t
        return self.ident(prefix)

    # -- scopes
    @property
    def scene(self):
        return self.scopes[-1][0]

    def owner(self):
        """The PROTO whose body is being written (None in interface defaults)"""
        return None if self.scopes[-1][4][0] else self.scopes[-1][3]

    def lookup(self, category):
        out, names = [], set()
        for scene, _v, _o, _p, _q in reversed(self.scopes):
            for name, proto in scene.protos.items():
                if name not in names and proto.category == category:
                    out.append(proto)
                names.add(name)
        return out

    def scene_ast(self):
        self.open_scene(None)
        for _ in range(self.rng.randint(self.f['minprotos'], self.f['maxprotos']) if self.f['protos'] else 0):
            self.proto_item()
        for _ in range(self.rng.randint(*self.f['roots'])):
            if self.budget <= 0:
                break
            self.root_item()
        return self.close_scene()

    def open_scene(self, proto):
        self.scopes.append((Scene(), {}, [], proto, [0]))

    def close_scene(self):
        scene, visible, _o, _p, _q = self.scopes.pop()
        scene.defs = dict(visible)
        return scene

    def root_item(self):
        rng, scene = self.rng, self.scene
        k = rng.random()
        if self.f['protos'] and k < self.f['prate'] and len(self.scopes) < self.f['protodepth']:
            self.proto_item()
        elif self.f['routes'] and k < self.f['prate'] + self.f['routerate']:
            r = self.route()
            if r:
                scene.items.append(('route', r))
        else:
            scene.items.append(('node', self.slot(ALLOWED['children'], 'children', 0)))

    def proto_item(self):
        self.scene.items.append(('proto', self.proto()))

    # -- PROTO declarations
    def proto(self):
        rng = self.rng
        self.budget -= 1
        name = self.ident('P')
        if self.f['shadow'] and rng.random() < .1 and len(self.scopes) > 1:
            outer = [n for s in self.scopes[:-1] for n in s[0].protos if n not in self.scene.protos]
            if outer:
                name = rng.choice(outer)
                self.stat('shadowed_protos')
        p = Proto(name)
        extern = self.f['externs'] and rng.random() < .2
        for _ in range(rng.randint(3, 8) if self.f['moreiface'] else rng.randint(0, 4)):
            access = rng.choice(['field', 'exposedField', 'exposedField'] + (['eventIn', 'eventOut'] if self.f['events'] else []))
            typ = rng.choice(self.f['types'])
            if typ in ('SFNode', 'MFNode') and not self.f['nodefields']:
                typ = 'SFFloat'
            i = Iface(access, typ, self.iface_name('i', [x.name for x in p.iface]))
            if i.is_field and not extern:
                # whose IS statements would an inner interface's default hold?
                self.scopes[-1][4][0] += 1
                i.default = self.value(typ, None, 2, simple=True)
                self.scopes[-1][4][0] -= 1
            p.iface.append(i)
        if extern:
            p.url = [gstring(rng, self.f['hard']) for _ in range(rng.randint(1, 3))]
            self.stat('externprotos')
        else:
            self.open_scene(p)
            p.category = rng.choice(['children', 'children', 'children', 'geometry', 'appearance', 'material'])
            if self.f['protos'] and len(self.scopes) <= self.f['protodepth'] and rng.random() < self.f['nestrate']:
                self.proto_item()
            n = self.slot(ALLOWED[p.category], p.category, 1, fresh=True)
            self.scene.items.append(('node', n))
            for _ in range(rng.randint(0, 2)):
                self.root_item()
            p.body = self.close_scene()
            self.stat('protos')
        self.scene.protos[name] = p
        return p

    # -- nodes
    def slot(self, types, category, depth, fresh=False):
        """a Node for a node-valued slot: fresh, or one already DEFed (USE)"""
        rng = self.rng
        scene, visible, opened, _p, _q = self.scopes[-1]
        plain = self.scopes[-1][4][0] and not self.f['nameddefaults']
        if not fresh and not plain and rng.random() < self.f['use']:
            cand = [n for n in visible.values() if n not in opened and
                    (n.type in types or n.type in self.f['own'].get(category, ()) or (n.kind == 'inst' and n.decl.category == category) or (n.kind == 'script' and category == 'children'))]
            if cand:
                n = rng.choice(cand)
                n.refs += 1
                self.stat('uses')
                return n
        if category == 'children' and self.f['scripts'] and rng.random() < .08:
            return self.script(depth)
        protos = self.lookup(category)
        if protos and rng.random() < self.f['irate']:
            return self.instance(rng.choice(protos), depth)
        deep = depth >= self.f['depth'] or self.budget <= 0
        pool = types
        if category == 'children':
            pool = [t for t in types if t not in spec97.GROUPS] if deep else (spec97.GROUPS if rng.random() < .6 else types)
        if self.f['own'].get(category) and rng.random() < self.f['ownrate']:
            pool = self.f['own'][category]
            self.stat('own_nodes')
        n = Node(rng.choice(pool))
        self.begin(n)
        spec = NODES[n.type]
        self.body(n, spec, depth, deep)
        self.end(n)
        return n

    def begin(self, n):
        rng = self.rng
        scene, visible, opened, _p, _q = self.scopes[-1]
        self.budget -= 1
        self.stat('nodes')
        if rng.random() < .45 and not (self.scopes[-1][4][0] and not self.f['nameddefaults']):
            again = sorted(set(visible) - {o.name for o in opened}) if self.f['dup'] else ()
            if again and rng.random() < .25:
                n.name = rng.choice(again)
                self.stat('redefined_names')
            else:
                n.name = self.ident('D')
                if self.f['scopedname'] and len(self.scopes) > 1 and rng.random() < .3:
                    outer = sorted({x for s in self.scopes[:-1] for x in s[1] if x not in visible})
                    if outer:
                        n.name = rng.choice(outer)
                        self.stat('names_shared_between_scopes')
            visible[n.name] = n
        opened.append(n)
        scene.nodes.append(n)
        n.refs = 1

    def end(self, n):
        self.scopes[-1][2].remove(n)

    def body(self, n, spec, depth, deep):
        rng = self.rng
        names = list(spec.fields)
        rng.shuffle(names)
        keep = rng.choice([0, .15, .3, .3, .6, 1.0])
        chosen = [f for f in names if rng.random() < keep]
        for f in spec.fields:
            if f in ALLOWED and f not in chosen and rng.random() < (.6 if not deep else .1):
                chosen.append(f)
        for f in chosen:
            exposed, typ, _d = spec.fields[f]
            self.stray(n)
            if self.map_is(n, f, typ, exposed):
                continue
            if typ in ('SFNode', 'MFNode') and deep and typ == 'SFNode' and rng.random() < .8:
                continue
            n.values[f] = self.value(typ, f, depth + 1)
            n.members.append(('field', f))
        # events of the interface, and events through to the node's own events
        proto = self.owner()
        often = rng.choice([1, 1, 4])
        if proto is not None and self.f['events']:
            for f, (exposed, typ, _d) in spec.fields.items():
                for i in proto.iface:
                    if exposed and not i.is_field and i.type == typ and rng.random() < .2 * often and not any(m[0] == 'is' and m[1] in (f, 'set_' + f, f + '_changed') for m in n.members):
                        en = ('set_' + f) if i.access == 'eventIn' else f + '_changed'
                        if en in spec.events or en in spec.fields:
                            continue
                        n.members.append(('is', en, i.name))
                        proto.maps.append((i.name, n, en))
                        self.stat('event_is')
            for e, (direction, typ) in spec.events.items():
                for i in proto.iface:
                    if not i.is_field and i.type == typ and i.access == ('eventIn' if direction == 'in' else 'eventOut') and rng.random() < .3 * often and ('is', e, i.name) not in n.members and not any(m[:2] == ('is', e) for m in n.members):
                        n.members.append(('is', e, i.name))
                        proto.maps.append((i.name, n, e))
                        self.stat('event_is')
        self.stray(n)

    def stray(self, n):
        """ROUTE and PROTO statements are allowed inside node bodies"""
        rng = self.rng
        if not self.f['inner'] or (self.scopes[-1][4][0] and not self.f['nameddefaults']):
            return
        if self.f['routes'] and rng.random() < .03:
            r = self.route()
            if r:
                n.members.append(('route', r))
                self.stat('routes_in_bodies')
        if self.f['protos'] and rng.random() < .01 and len(self.scopes) < self.f['protodepth'] and self.budget > 3:
            n.members.append(('proto', self.proto()))
            self.stat('protos_in_bodies')

    def map_is(self, n, f, typ, exposed):
        proto = self.owner()
        if proto is None or self.rng.random() > self.f['israte']:
            return False
        cand = [i for i in proto.iface if i.is_field and i.type == typ and (exposed or i.access == 'field')]
        if not cand:
            return False
        i = self.rng.choice(cand)
        n.members.append(('is', f, i.name))
        proto.maps.append((i.name, n, f))
        self.stat('field_is')
        return True

    def script(self, depth):
        rng = self.rng
        n = Node('Script', 'script')
        self.begin(n)
        proto = self.owner()
        for _ in range(rng.randint(0, 4)):
            self.stray(n)
            access = rng.choice(['field', 'field', 'exposedField', 'eventIn', 'eventOut'])
            typ = rng.choice(self.f['types'])
            if typ in ('SFNode', 'MFNode') and not self.f['nodefields']:
                typ = 'SFBool'
            i = Iface(access, typ, self.iface_name('s', [x.name for x in n.iface] + ['url']))
            isname = None
            if proto is not None and rng.random() < .5:
                cand = [j for j in proto.iface if j.access == access and j.type == typ]
                if not cand and proto.iface:
                    j = rng.choice(proto.iface)
                    i.access, i.type = j.access, j.type
                    cand = [j]
                if cand:
                    isname = rng.choice(cand).name
                    proto.maps.append((isname, n, i.name))
                    self.stat('script_is')
            if i.is_field and isname is None:
                i.default = self.value(i.type, None, depth + 1, simple=True)
            n.iface.append(i)
            n.members.append(('decl', i, isname))
        for f, typ in (('url', 'MFString'), ('directOutput', 'SFBool'), ('mustEvaluate', 'SFBool')):
            if rng.random() < .4:
                if self.map_is(n, f, typ, f == 'url'):
                    self.stat('script_own_is')
                    continue
                n.values[f] = self.value(typ, f, depth)
                n.members.insert(rng.randint(0, len(n.members)), ('field', f))
        self.end(n)
        self.stat('scripts')
        return n

    def instance(self, proto, depth):
        rng = self.rng
        n = Node(proto.name, 'inst', decl=proto)
        self.begin(n)
        for i in proto.iface:
            if not i.is_field:
                mine = self.owner()
                if mine is not None and self.f['events'] and rng.random() < .4:
                    cand = [j for j in mine.iface if j.access == i.access and j.type == i.type]
                    if cand:
                        j = rng.choice(cand)
                        n.members.append(('is', i.name, j.name))
                        mine.maps.append((j.name, n, i.name))
                        self.stat('event_is')
                continue
            if rng.random() < .5:
                continue
            self.stray(n)
            if self.map_is(n, i.name, i.type, i.access == 'exposedField'):
                continue
            n.values[i.name] = self.value(i.type, i.name, depth + 1, simple=i.name not in ALLOWED)
            n.members.append(('field', i.name))
        self.end(n)
        self.stat('instances')
        return n

    def value(self, typ, fieldname, depth, simple=False):
        rng = self.rng
        if typ in ('SFNode', 'MFNode'):
            cat = fieldname if fieldname in ALLOWED else rng.choice(['children', 'geometry', 'appearance', 'material', 'texture'])
            if typ == 'SFNode':
                if rng.random() < .1 or (simple and (self.budget <= 0 or rng.random() < .5)):
                    return None
                return self.slot(ALLOWED[cat], cat, max(depth, 3) if simple else depth)
            n = rng.choice([0, 1, 1, 2, 3, 4]) if self.budget > 0 else rng.choice([0, 1])
            if simple:
                n = min(n, 2)
            elif self.f['wide'] and rng.random() < self.f['wide'] and self.budget > 0:
                n, depth = rng.choice([17, 40, 130, 270]), 99
                self.stat('wide_lists')
            return [self.slot(ALLOWED[cat], cat, max(depth, 3) if simple else depth) for _ in range(n)]
        big = rng.random() < self.f['bigvalues']
        return gvalue(rng, typ, self.f['hard'], big)

    def route(self):
        rng = self.rng
        scene, visible, _o, _p, _q = self.scopes[-1]
        srcs = []
        for n in visible.values():
            for name, typ, direction in ports(n):
                srcs.append((n, name, typ, direction))
        outs = [s for s in srcs if s[3] in ('out', 'both')]
        if not outs:
            return None
        rng.shuffle(outs)
        for s in outs[:5]:
            ins = [d for d in srcs if d[3] in ('in', 'both') and d[2] == s[2] and (d[0] is not s[0] or d[1] != s[1])]
            if ins:
                d = rng.choice(ins)
                sf, df = s[1], d[1]
                if s[3] == 'both' and rng.random() < .5 and not declares(s[0], sf + '_changed'):
                    sf += '_changed'
                if d[3] == 'both' and rng.random() < .5 and not declares(d[0], 'set_' + df):
                    df = 'set_' + df
                r = Route(s[0], sf, d[0], df)
                scene.routes.append(r)
                self.stat('routes')
                return r
        return None


def ports(n):
    """(name, type, 'in'/'out'/'both') of a node's events and exposed fields"""
    if n.kind == 'std':
        spec = NODES[n.type]
        out = [(f, t, 'both') for f, (x, t, _d) in spec.fields.items() if x]
        out += [(e, t, d) for e, (d, t) in spec.events.items()]
        return out
    ifaces = n.iface if n.kind == 'script' else n.decl.iface
    return [(i.name, i.type, {'exposedField': 'both', 'eventIn': 'in', 'eventOut': 'out'}[i.access]) for i in ifaces if i.access != 'field']


def declares(n, name):
    if n.kind == 'std':
        return name in NODES[n.type].fields or name in NODES[n.type].events
    return any(i.name == name for i in (n.iface if n.kind == 'script' else n.decl.iface))


# ------------------------------------------------------------------- emitter
class Emitter:
    """AST -> text.  style: 'plain', 'dense' (fewest separators), 'wild'."""

    def __init__(self, rng, style='plain', header=True):
        self.rng, self.style, self.header = rng, style, header
        self.toks = []
        self.done = set()
        self.field_tokens = []
        self.roles = {}

    def w(self, text, role=None):
        if role:
            self.roles.setdefault(role, []).append(len(self.toks))
        self.toks.append(('w', text))

    def p(self, text):
        self.toks.append(('p', text))

    def j(self):
        self.toks.append(('j', ''))

    def string(self, s):
        out = []
        for k, c in enumerate(s):
            if c == '"':
                out.append('\\"')
            elif c == '\\':
                nxt = s[k + 1] if k + 1 < len(s) else ''
                # a backslash only needs escaping before a backslash or a quote
                if self.style == 'wild' and nxt not in ('\\', '"', '') and (not out or out[-1] != '\\') and self.rng.random() < .5:
                    out.append('\\')
                else:
                    out.append('\\\\')
            else:
                out.append(c)
        self.toks.append(('s', '"%s"' % ''.join(out)))

    def document(self, scene):
        self.scene(scene)
        return self.text()

    def scene(self, scene):
        for kind, item in scene.items:
            getattr(self, kind)(item)

    def proto(self, p):
        self.w('EXTERNPROTO' if p.url is not None else 'PROTO', 'proto')
        self.w(p.name, 'declared')
        self.p('[')
        for i in p.iface:
            self.decl(i, None, p.url is None)
        self.p(']')
        if p.url is not None:
            if len(p.url) == 1 and self.rng.random() < .5:
                self.string(p.url[0])
            else:
                self.p('[')
                for u in p.url:
                    self.string(u)
                self.p(']')
        else:
            self.p('{')
            self.scene(p.body)
            self.p('}')

    def decl(self, i, isname, default=True):
        self.w(i.access, 'access')
        self.w(i.type, 'datatype')
        self.w(i.name, 'declared')
        if isname is not None:
            self.w('IS')
            self.w(isname)
        elif i.is_field and default:
            self.value(i.type, i.default)

    def route(self, r):
        self.w('ROUTE', 'route')
        for k, (n, f) in enumerate(((r.src, r.sf), (r.dst, r.df))):
            if k:
                self.w('TO', 'to')
            self.w(n.name, 'routename')
            self.j()
            self.p('.')
            self.j()
            self.w(f)

    def node(self, n):
        if n is None:
            self.w('NULL')
            return
        if id(n) in self.done:
            self.w('USE')
            self.w(n.name, 'use')
            return
        self.done.add(id(n))
        if n.name:
            self.w('DEF')
            self.w(n.name, 'declared')
        self.w(n.type, 'type' if n.kind != 'script' else 'script')
        self.p('{')
        for m in n.members:
            if m[0] == 'field':
                self.w(m[1], 'field')
                self.value(self.ftype(n, m[1]), n.values[m[1]])
            elif m[0] == 'is':
                self.w(m[1], 'field')
                self.w('IS', 'is')
                self.w(m[2], 'isname')
            elif m[0] == 'decl':
                self.decl(m[1], m[2])
            else:
                getattr(self, m[0])(m[1])
        self.p('}')

    @staticmethod
    def ftype(n, f):
        if n.kind == 'std':
            return NODES[n.type].fields[f][1]
        if n.kind == 'script':
            return {'url': 'MFString', 'directOutput': 'SFBool', 'mustEvaluate': 'SFBool'}[f]
        return [i.type for i in n.decl.iface if i.name == f][0]

    def value(self, typ, v):
        start = len(self.toks)
        if typ == 'SFBool':
            self.w('TRUE' if v else 'FALSE')
        elif typ in ('SFInt32', 'SFUInt32', 'SFFloat', 'SFTime'):
            self.w(v)
        elif typ in ('SFArray', 'SFArray32'):
            self.vector(v)
        elif typ == 'SFString':
            self.string(v)
        elif typ == 'SFNode':
            self.node(v)
        elif typ in WIDTH or typ == 'SFImage':
            for x in v:
                self.w(x)
        else:
            bare = len(v) == 1 and self.rng.random() < .5
            if not bare:
                self.p('[')
            for x in v:
                if typ == 'MFNode':
                    self.node(x)
                elif typ == 'MFString':
                    self.string(x)
                elif typ in MWIDTH:
                    for y in x:
                        self.w(y)
                else:
                    self.w(x)
            if not bare:
                self.p(']')
        self.field_tokens.append((typ, start, len(self.toks)))

    def vector(self, v):
        self.p('[')
        for x in v:
            if isinstance(x, list):
                self.vector(x)
            else:
                self.w(x)
        self.p(']')

    # -- layout
    def sep(self):
        rng = self.rng
        if self.style == 'dense':
            return rng.choice([' ', ',', '\n'])
        if self.style == 'plain':
            return ' '
        out = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            out.append(rng.choice([' ', '\t', '\n', ',', '  ', '\r\n', '\r', ', ', '\n\n',
                                   '#%s%s' % (rng.choice(['', ' comment', ' } ] {', ' "unterminated', ' DEF x Box {}', '#', ' \\', ' é', ' ROUTE a.b TO c.d', '\t0 1 2']),
                                              rng.choice(['\n', '\r', '\r\n']))]))
        return ''.join(out)

    def text(self, toks=None):
        rng = self.rng
        out = []
        if self.header:
            out.append('#VRML V2.0 utf8')
            if self.style == 'wild' and rng.random() < .3:
                out.append(' made by hand {')
            out.append(rng.choice(['\n', '\r', '\r\n']) if self.style == 'wild' else '\n')
        prev = None
        glue = True
        for kind, t in (self.toks if toks is None else toks):
            if kind == 'j':
                glue = True
                continue
            if prev is not None and not glue:
                need = (prev in 'ws' and kind in 'ws')
                if need or (self.style == 'plain') or (self.style == 'wild' and rng.random() < .6):
                    out.append(self.sep())
            elif prev is None and self.style == 'wild' and rng.random() < .3:
                out.append(self.sep())
            glue = False
            out.append(t)
            prev = kind
        if self.style == 'plain':
            out.append('\n')
        elif self.style == 'wild':
            out.append(rng.choice(['', '\n', ' ', '# the end', '#', '\r', ',']))
        return ''.join(out)


# ------------------------------------------------------------------ comparing
def same_value(typ, ast, value):
    """Is `value` (from the library) the value the AST stands for?"""
    if typ == 'SFBool':
        return isinstance(value, (bool, int, np.bool_)) and bool(value) == ast and value in (0, 1)
    if typ in ('SFInt32', 'SFUInt32'):
        return isinstance(value, (int, np.integer)) and not isinstance(value, bool) and int(value) == ival(ast)
    if typ == 'SFTime':
        return isinstance(value, (float, np.floating)) and float(value) == float(ast)
    if typ == 'SFFloat':
        return isinstance(value, (float, np.floating)) and f32(value) == f32(ast)
    if typ == 'SFString':
        return isinstance(value, str) and value == ast
    if typ == 'MFString':
        return isinstance(value, list) and all(isinstance(v, str) for v in value) and value == list(ast)
    if not isinstance(value, np.ndarray):
        return False
    if typ in EXTRA and value.dtype != np.dtype(EXTRA[typ]):
        return False
    if typ in ('MFInt32', 'MFUInt32', 'SFImage'):
        return value.dtype.kind in 'iu' and value.shape == (len(ast),) and [int(v) for v in value] == [ival(a) for a in ast]
    if value.dtype.kind != 'f':
        return False
    if typ == 'MFTime':
        return value.shape == (len(ast),) and [float(v) for v in value] == [float(a) for a in ast]
    if typ in ('SFArray', 'SFArray32'):
        want, shape, row = ast, [], ast
        while isinstance(row, list):
            shape.append(len(row))
            row = row[0] if row else None
        for _ in shape[1:]:
            want = [x for r in want for x in r]
        shape = tuple(shape)
    elif typ in WIDTH:
        want, shape = ast, SHAPES.get(typ, (WIDTH[typ],))
    elif typ in MWIDTH:
        want, shape = [x for row in ast for x in row], (len(ast),) + SHAPES.get(typ, (MWIDTH[typ],))
    else:
        want, shape = ast, (len(ast),)
    if value.shape != shape:
        return False
    if EXTRA.get(typ) == 'd':
        return [float(v) for v in value.ravel()] == [float(x) for x in want]
    w = [f32(x) for x in want]
    if typ.endswith('Color'):
        w = [min(max(x, np.float32(0)), np.float32(1)) for x in w]
    return [f32(v) for v in value.ravel()] == w


class Mismatch(Exception):
    def __init__(self, what, text):
        Exception.__init__(self, what, text)
        self.what, self.text = what, text


class Compare:
    """Walks an AST and a parsed scenegraph together.  Identity: one AST node
    is one object (USE), two AST nodes are two objects."""

    def __init__(self, rec, lib, options=(), flat=None):
        self.rec, self.lib, self.options = rec, lib, options
        self.flat = flat     # scene in which all PROTOs are declared
        self.map = {}      # id(AST) -> object
        self.back = {}     # id(object) -> AST
        self.keep = []
        self.asts = {}     # id(AST) -> AST
        self.named = ()    # ids of AST nodes which were given some name

    def bad(self, what, text):
        raise Mismatch(what, text)

    def scene(self, ast, sg, where):
        roots = ast.roots()
        kids = list(sg.children)
        if len(kids) != len(roots):
            self.bad('root-count', '%s: %d root nodes, expected %d: %r' % (where, len(kids), len(roots), kids[:6]))
        for k, (n, o) in enumerate(zip(roots, kids)):
            self.node(n, o, '%s[%d]' % (where, k))
        # declared prototypes
        for name, p in ast.protos.items():
            if 'noprotos' in self.options:
                break
            cls = (self.flat if self.flat is not None else sg).protoTypes.get(name)
            if not isinstance(cls, type):
                self.bad('proto-missing', '%s: PROTO %s is not registered' % (where, name))
            self.proto(p, cls, '%s/PROTO %s' % (where, name))
        if 'noroutes' not in self.options:
            self.routes(ast, sg, where)
        if 'nodefs' not in self.options:
            have = {k: v for k, v in sg.defNames.items() if k and v is not None}
            if set(have) != set(ast.defs):
                self.bad('def-names', '%s: DEF names %r, expected %r' % (where, sorted(have), sorted(ast.defs)))
            for k, n in ast.defs.items():
                if id(n) not in self.map:
                    # only reachable through something we did not walk
                    continue
                if sg.getDEF(k) is not self.map[id(n)]:
                    self.bad('def-lookup', '%s: getDEF(%r) is %r, not the node last given that name' % (where, k, sg.getDEF(k)))
        self.rec.count('scenes_compared')

    def routes(self, ast, sg, where):
        routes = list(sg.routes)
        if len(routes) != len(ast.routes):
            self.bad('route-count', '%s: %d routes, expected %d' % (where, len(routes), len(ast.routes)))
        for r, o in zip(ast.routes, routes):
            if (o.sourceField, o.destinationField) != (r.sf, r.df):
                self.bad('route-fields', '%s: route %s TO %s, expected %s TO %s' % (where, o.sourceField, o.destinationField, r.sf, r.df))
            for n, got in ((r.src, o.source), (r.dst, o.destination)):
                if id(n) in self.map and got is not self.map[id(n)]:
                    self.bad('route-ends', '%s: route end %r is not the node named %s' % (where, got, n.name))
            self.rec.count('routes_compared')

    def node(self, n, o, where):
        lib = self.lib
        if n is None:
            if not isinstance(o, lib.NullNode):
                self.bad('null', '%s: %r instead of NULL' % (where, o))
            return
        known = self.map.get(id(n))
        if known is not None:
            if known is not o:
                self.bad('use-identity', '%s: USE %s gives another object than DEF' % (where, n.name))
            self.rec.count('use_identities')
            return
        if id(o) in self.back:
            self.bad('shared-object', '%s: %r also stands for %r' % (where, o, self.back[id(o)]))
        self.map[id(n)] = o
        self.asts[id(n)] = n
        self.back[id(o)] = n
        self.keep.append(o)
        if not isinstance(o, lib.Node) or lib.protoName(o) != n.type:
            self.bad('node-type', '%s: %r instead of a %s' % (where, o, n.type))
        if id(n) in self.named:
            if not lib.defName(o):
                self.bad('def-attribute', '%s: has no name' % where)
        elif lib.defName(o) != (n.name or ''):
            self.bad('def-attribute', '%s: named %r, expected %r' % (where, lib.defName(o), n.name))
        self.rec.count('nodes_compared')
        mapped = {m[1] for m in n.members if m[0] == 'is'} | {m[1].name for m in n.members if m[0] == 'decl' and m[2] is not None}
        for f, typ, default in self.fields(n):
            if f in mapped:
                continue
            if f in n.values:
                ast = n.values[f]
            elif n.kind == 'inst' and n.decl.url is not None:
                continue
            elif n.kind == 'inst' and typ in ('SFNode', 'MFNode'):
                continue      # the default node is compared with the declaration
            else:
                ast = default
            self.value(typ, ast, getattr(o, f), '%s.%s' % (where, f))
        if n.kind == 'script':
            self.iface(n.iface, type(o), where, scriptof=o, mapped=mapped)

    @staticmethod
    def fields(n):
        if n.kind == 'std':
            return [(f, t, d) for f, (x, t, d) in NODES[n.type].fields.items()]
        if n.kind == 'script':
            return [(i.name, i.type, i.default) for i in n.iface if i.is_field] + [
                ('url', 'MFString', []), ('directOutput', 'SFBool', False), ('mustEvaluate', 'SFBool', False)]
        return [(i.name, i.type, i.default) for i in n.decl.iface if i.is_field]

    def value(self, typ, ast, value, where):
        if typ == 'SFNode':
            self.node(ast, value, where)
        elif typ == 'MFNode':
            ast = ast or []
            if not isinstance(value, list) or len(value) != len(ast):
                self.bad('node-list', '%s: %r, expected %d nodes' % (where, value, len(ast)))
            for k, (a, v) in enumerate(zip(ast, value)):
                self.node(a, v, '%s[%d]' % (where, k))
        else:
            self.rec.count('values_compared')
            if not same_value(typ, ast, value):
                self.bad('value:' + typ, '%s: %s value %r, written %r' % (where, typ, value, ast))

    def iface(self, want, cls, where, scriptof=None, mapped=()):
        lib = self.lib
        skip = {' DEF', ' root', ' scenegraph', 'externalURL'} | ({'url', 'directOutput', 'mustEvaluate'} if scriptof is not None else set())
        have = {}
        for f in lib.getFields(cls):
            if f.name not in skip:
                have[f.name] = ('exposedField' if f.exposure else 'field', f.typeName())
        for e in lib.getFields(cls, 1):
            have[e.name] = ('eventOut' if e.direction else 'eventIn', e.typeName())
        exp = {i.name: (i.access, i.type) for i in want}
        if have != exp:
            self.bad('interface', '%s: interface %r, declared %r' % (where, have, exp))
        self.rec.count('interface_entries', len(exp))

    def proto(self, p, cls, where):
        lib = self.lib
        if lib.protoName(cls) != p.name:
            self.bad('proto-name', '%s: called %r' % (where, lib.protoName(cls)))
        self.iface(p.iface, cls, where)
        if p.url is not None:
            url = lib.getExternalURL(cls)
            if list(url) != p.url:
                self.bad('extern-url', '%s: url %r, expected %r' % (where, url, p.url))
            return
        for i in p.iface:
            if i.is_field:
                f = lib.getField(cls, i.name)
                self.value(i.type, i.default, f.coerce(f.getDefault()), '%s %s default' % (where, i.name))
        self.scene(p.body, lib.getSceneGraph(cls), where)
        self.rec.count('protos_compared')


# ------------------------------------------------------------- building by API
class Build:
    """Python objects for an AST without PROTOs, Scripts or IS"""

    def __init__(self, lib, rng, exact=False, namespace=None):
        self.lib, self.rng, self.exact, self.namespace = lib, rng, exact, namespace or lib.basenamespaces.basePrototypes
        self.done = {}

    def scene(self, ast):
        lib, rng = self.lib, self.rng
        roots = [self.node(n) for n in ast.roots()]
        sg = lib.scenegraph.SceneGraph(children=roots)
        for r in ast.routes:
            sg.addRoute(lib.route.ROUTE(source=self.done[id(r.src)], sourceField=r.sf, destination=self.done[id(r.dst)], destinationField=r.df))
        return sg

    def node(self, n):
        lib, rng = self.lib, self.rng
        if n is None:
            return rng.choice([None, lib.NULL])
        if id(n) in self.done:
            return self.done[id(n)]
        cls = self.namespace[n.type]
        o = cls()
        self.done[id(n)] = o
        if n.name:
            lib.defName(o, n.name)
        for f, v in n.values.items():
            setattr(o, f, self.value(NODES[n.type].fields[f][1], v))
        return o

    def value(self, typ, v):
        rng = self.rng
        if typ == 'SFNode':
            return self.node(v)
        if typ == 'MFNode':
            return [self.node(x) for x in v]
        if typ in ('SFBool', 'SFString'):
            return v
        if typ == 'MFString':
            return rng.choice([list, tuple])(v)
        if typ in ('SFInt32', 'SFUInt32'):
            return ival(v)
        if typ in ('SFArray', 'SFArray32'):
            make = lambda v: [make(x) for x in v] if isinstance(v, list) else float(v)
            return make(v) if rng.random() < .5 else np.array(make(v), 'd')
        if typ in ('MFInt32', 'MFUInt32', 'SFImage'):
            return [ival(x) for x in v]
        if typ in ('SFFloat', 'SFTime'):
            return float(v)
        if typ in MWIDTH and typ not in WIDTH:
            rows = [[float(y) for y in x] for x in v]
            k = rng.randrange(3)
            if k == 0 and rows:
                return np.array(rows, 'd')
            if k == 1:
                return [y for x in rows for y in x]
            return rows
        row = [float(x) for x in v]
        return np.array(row, 'd') if rng.random() < .3 and row else row
