"""C23: node types know their fields, events and names; constructors, str() and repr() follow them."""
import io
import contextlib
import re
from .. import lib, values
from ..rec import Violation
from ..spec97 import NODES

CLEANUP_EVERY = 40
PF = lib.protofunctions
Field, Event = lib.field.Field, lib.field.Event
TYPES = sorted(values.ALL) + ['SFNode', 'MFNode']
EVENTS = sorted(lib.field.baseEventTypes)


def plan(tier, mode):
    k = 1 if tier == 'quick' else 15
    return [('history', 500 * k), ('constructor', 500 * k), ('words', 300 * k)]


class Type:
    """A node type of ours: its class, what it declares itself, its bases"""

    def __init__(self, cls, own, bases, protoname):
        self.cls, self.own, self.bases, self.name = cls, own, bases, protoname


class World:
    def __init__(self, rng, rec):
        self.rng, self.rec = rng, rec
        self.types = []
        self.nodes = []
        self.serial = 0
        self.standard = [lib.basenamespaces.basePrototypes[n] for n in rng.sample(sorted(NODES), 3)]

    # -- making things
    def field(self, name=None):
        rng = self.rng
        self.serial += 1
        typ = rng.choice(TYPES)
        name = name or rng.choice(['f%d', 'aField%d', 'set_thing%d', 'thing%d_changed', 'F_%d', 'x%d']) % self.serial
        exposure = rng.randint(0, 1)
        spell = rng.choice(['name', 'class', 'newclass'])
        default = []
        if typ not in values.NODE_TYPES and rng.random() < .5:
            default = [values.base(rng, typ)]
        if spell == 'name' and typ in lib.field.baseFieldTypes:
            f = lib.field.newField(name, typ, exposure, *default)
        elif spell == 'newclass':
            f = lib.field.newField(name, values.field_class(typ), exposure, *default)
        else:
            f = values.field_class(typ)(name, exposure, *default)
        f_type = f.typeName()
        self.rec.require(f_type == typ, 'typeName', lambda: '%s for a %s field' % (f_type, typ))
        self.rec.require((f.name, f.exposure) == (name, exposure), 'field-attributes', lambda: '%r' % ((f.name, f.exposure),))
        if default:
            got = f.coerce(f.getDefault())
            want = values.expected(typ, default[0])
            self.rec.require(not values.is_canonical(typ, got, want), 'field-default', lambda: '%s: %r is not %r' % (typ, got, want))
        words = str(f).split()
        self.rec.require(words[:3] == [('field', 'exposedField')[exposure], typ, name], 'field-str', lambda: str(f))
        self.rec.count('fields_made')
        return f

    def event(self):
        rng = self.rng
        self.serial += 1
        typ = rng.choice(EVENTS)
        name = rng.choice(['e%d', 'set_e%d', 'e%d_changed', ' hidden%d']) % self.serial
        direction = rng.randint(0, 1)
        e = lib.field.newEvent(name, rng.choice([typ, lib.field.baseEventTypes[typ]]), direction)
        self.rec.require((e.name, e.direction, e.typeName()) == (name, direction, typ), 'event-attributes', lambda: str(e))
        self.rec.require(str(e) == '%s %s %s' % (('eventIn', 'eventOut')[direction], typ, name), 'event-str', lambda: str(e))
        c = e.clone()
        self.rec.require((type(c), c.name, c.direction) == (type(e), name, direction) and c is not e, 'event-clone', lambda: str(c))
        c = e.clone(name='other', direction=1 - direction)
        self.rec.require((type(c), c.name, c.direction) == (type(e), 'other', 1 - direction) and e.name == name, 'event-clone', lambda: str(c))
        return e

    def make(self):
        """A new type, by prototype() or by a class statement, with our types or standard ones as bases"""
        rng = self.rng
        self.serial += 1
        own = {}
        inherited = rng.choice(self.types) if self.types and rng.random() < .6 else None
        for _ in range(rng.randint(0, 4)):
            if rng.random() < .25:
                e = self.event()
                own[e.name.strip()] = e
                continue
            f = self.field()
            # the storage name may differ from the attribute
            if rng.random() < .2:
                f = values.field_class('SFFloat')(' ' + f.name, 1)
            own[f.name.strip()] = f
        base_fields = [a for a, f in self.expected(inherited.cls, Field).items() if not a.startswith(('DEF', 'root', 'ext'))] if inherited else []
        if base_fields and rng.random() < .5:
            # redeclared with another type
            a = rng.choice(sorted(base_fields))
            own[a] = self.field(a)
            self.rec.count('fields_redeclared')
        name = 'T%d' % self.serial
        how = rng.choice(['prototype', 'type', 'type-named'])
        if how == 'prototype' and all(f.name == a for a, f in own.items()):
            bases = (lib.node.PrototypedNode, lib.Node) if inherited is None or not lib.builtin(inherited.cls) and False else (inherited.cls,) if inherited else (lib.node.PrototypedNode, lib.Node)
            if inherited is None:
                cls = lib.node.prototype(name, list(own.values()))
            else:
                cls = lib.node.prototype(name, list(own.values()), baseClasses=bases)
            proto = name
        else:
            second = [t.cls for t in self.types if inherited and t is not inherited and not issubclass(t.cls, inherited.cls) and not issubclass(inherited.cls, t.cls)]
            bases = [inherited.cls] if inherited else [rng.choice([lib.Node, rng.choice(self.standard)])]
            if second and rng.random() < .4:
                bases.append(rng.choice(second))
                self.rec.count('multiple_bases')
            if rng.random() < .2:
                class Mixin:
                    pass
                bases.insert(0, Mixin)
            env = dict(own)
            proto = None
            if how == 'type-named':
                proto = env['PROTO'] = 'Named%d' % self.serial
            try:
                cls = type(name, tuple(bases), env)
            except TypeError:
                return None
        t = Type(cls, own, bases, proto)
        self.types.append(t)
        self.rec.count('types_made')
        return t

    # -- the model
    def expected(self, cls, kind):
        """attribute -> field or event which the type has"""
        known = {t.cls: t.own for t in self.types}
        res = {}
        for c in reversed(cls.__mro__):
            for a, f in known[c].items() if c in known else vars(c).items():
                if isinstance(f, kind):
                    res[a] = f
        return res

    def check(self, cls, instance=None):
        rec = self.rec
        for kind, events in ((Field, 0), (Event, 1)):
            want = self.expected(cls, kind)
            for o in (cls, instance):
                if o is None:
                    continue
                got = PF.getFields(o, events)
                rec.require(len(got) == len(want) and {id(f) for f in got} == {id(f) for f in want.values()}, 'getFields-differ',
                            lambda: '%s: %s, not %s' % (cls.__name__, sorted(map(str, got)), sorted(map(str, want.values()))))
                for a, f in want.items():
                    names = [a, f.name]
                    # the pseudo-names of the event ports of the field
                    if not {'set_' + a, 'set_' + f.name} & self.names(cls):
                        names += ['set_' + a, 'set_' + f.name]
                    if not {a + '_changed', f.name + '_changed'} & self.names(cls) and not a.startswith('set_') and not f.name.startswith('set_'):
                        names += [a + '_changed', f.name + '_changed']
                    if a.startswith('set_') and f.name == a and not {a + '_changed', a[4:], a[4:] + '_changed'} & self.names(cls) and not hasattr(cls, a + '_changed'):
                        names.append(a + '_changed')
                        rec.count('set_fields_changed')
                    if f.name != a and f.name in want:
                        names.remove(f.name)
                    if a in ('rootSceneGraph', 'scenegraph', 'externalURL'):
                        # types hold values of these themselves, under the storage name
                        names = [a] if a != 'externalURL' else []
                    for n in names:
                        try:
                            got = PF.getField(o, n)
                        except AttributeError:
                            raise Violation('getField-unknown', '%r of %s, a %s, is not found' % (n, cls.__name__, f))
                        rec.require(got is f, 'getField-other', lambda: '%r of %s gives %s, not %s' % (n, cls.__name__, got, f))
                        rec.count('fields_looked_up')
                near = []
                if want and self.rng.random() < .08:
                    x = self.rng.choice(sorted(want))
                    taken = self.names(cls)
                    for y in (x, want[x].name):
                        near += [n for n in (' ' + y, y + ' ', y.strip(), '  ' + y.strip(), y.swapcase(), y[:-1], y + 'x', 'set' + y, 'Set_' + y, 'set_set_x' + y, 'set_ ' + y)
                                 if not any(m in taken or hasattr(cls, m) for m in stripped(n))]
                    rec.count('near_names', len(near))
                for n in near + ['noSuch', 'set_', '_changed', 'set_noSuch', 'noSuch_changed', ' ', 'set_DEF2', ' scenegraphs']:
                    try:
                        got = PF.getField(o, n)
                    except AttributeError:
                        continue
                    raise Violation('getField-invents', '%r of %s gives %r' % (n, cls.__name__, got))
        rec.count('types_checked')

    def names(self, cls):
        res = set()
        for kind in (Field, Event):
            for a, f in self.expected(cls, kind).items():
                res |= {a, f.name}
        return res


def stripped(name):
    """The name, and what is left without the prefixes and suffixes of event ports"""
    out, todo = set(), [name]
    while todo:
        n = todo.pop()
        if n not in out:
            out.add(n)
            todo += [n[4:]] * n.startswith('set_') + [n[:-8]] * n.endswith('_changed')
    return out


def history(rng, rec):
    w = World(rng, rec)
    log = []
    while not w.types:
        w.make()
    for _ in range(rng.randint(8, 20)):
        op = rng.choice(['make', 'make', 'add', 'add', 'remove', 'node', 'node', 'rename', 'def', 'remove-foreign', 'register'])
        log.append(op)
        t = rng.choice(w.types)
        if op == 'make':
            w.make()
        elif op == 'node':
            n = t.cls()
            w.nodes.append((t, n))
        elif op == 'add':
            f = w.field() if rng.random() < .7 else w.event()
            before = {x.cls: dict(w.expected(x.cls, type(f).__mro__[-2] if False else (Field if isinstance(f, Field) else Event))) for x in w.types}
            PF.addField(rng.choice([t.cls] + [n for u, n in w.nodes if u is t]), f)
            t.own[f.name] = f
            rec.count('fields_added')
            # nodes which are there already have it as well
            for u, n in w.nodes:
                if issubclass(u.cls, t.cls) and isinstance(f, Field) and w.expected(u.cls, Field).get(f.name) is f:
                    rec.require(not f.fhas(n), 'added-field-set', 'a new field has a value')
                    value = getattr(n, f.name)
                    rec.require(f.fhas(n) and value is n.__dict__[f.name], 'added-field-default', lambda: 'the default of a new field is %r' % (value,))
            del before
        elif op == 'remove':
            mine = sorted(a for a, f in t.own.items() if f.name == a)
            if not mine:
                continue
            a = rng.choice(mine)
            f = t.own.pop(a)
            PF.removeField(rng.choice([t.cls] + [n for u, n in w.nodes if u is t]), rng.choice([f, a]))
            rec.count('fields_removed')
            for u, n in w.nodes:
                if issubclass(u.cls, t.cls) and a not in w.names(u.cls) and a not in n.__dict__:
                    try:
                        value = getattr(n, a)
                    except AttributeError:
                        continue
                    raise Violation('removed-field-read', 'a field which was removed gives %r' % (value,))
        elif op == 'remove-foreign':
            # not one of its own: refused, nothing changes
            other = rng.choice(w.types)
            f = w.field()
            if other.own and other is not t and rng.random() < .5:
                g = rng.choice(sorted(other.own.values(), key=lambda f: f.name))
                if g.name not in t.own:
                    f = g
            try:
                PF.removeField(t.cls, rng.choice([f, f.name]))
            except AttributeError:
                rec.count('removals_refused')
            else:
                raise Violation('removed-foreign-field', '%s is no field of %s itself' % (f, t.cls.__name__))
        elif op == 'rename':
            if rng.random() < .6:
                w.serial += 1
                new = 'Renamed%d' % w.serial
                PF.protoName(rng.choice([t.cls] + [n for u, n in w.nodes if u is t]), new)
                t.name = new
        elif op == 'def':
            if w.nodes:
                t, n = rng.choice(w.nodes)
                new = rng.choice(['A', 'b_2', 'Name', ''])
                rng.choice([PF.defName, PF.name])(n, new)
                rec.require(PF.defName(n) == new == PF.name(n) == n.DEF, 'def-name', lambda: '%r after it was named %r' % (PF.defName(n), new))
                rec.count('names_given')
        elif op == 'register':
            registry(w)
        for x in w.types:
            insts = [n for u, n in w.nodes if u is x]
            w.check(x.cls, rng.choice(insts) if insts else None)
            names(w, x, insts)
        w.check(rng.choice(w.standard))
    fields = [f for t in w.types for f in w.expected(t.cls, Field).values()]
    rng.shuffle(fields)
    got = [(type(f).__name__, f.name) for f in sorted(fields)]
    rec.require(got == sorted(got), 'fields-sort', lambda: '%s' % got)
    rec.nontrivial(log, [sorted(t.own) for t in w.types])


def names(w, t, insts):
    want = t.name
    if want is None:
        # what is inherited, else the name of the class
        for c in t.cls.__mro__[1:]:
            u = [x for x in w.types if x.cls is c]
            if u and u[0].name:
                want = u[0].name
                break
            if not u and vars(c).get('PROTO'):
                want = vars(c)['PROTO']
                break
    want = want or t.cls.__name__
    for o in [t.cls] + insts[:2]:
        w.rec.require(PF.protoName(o) == want, 'protoName', lambda: '%r, not %r' % (PF.protoName(o), want))
        w.rec.require(PF.getPrototype(o) is t.cls, 'getPrototype', lambda: '%r' % PF.getPrototype(o))
        w.rec.require(bool(PF.builtin(o)) == (not issubclass(t.cls, lib.node.PrototypedNode)), 'builtin', lambda: '%s: %r' % (t.cls.__mro__, PF.builtin(o)))
    w.rec.require(PF.name(t.cls) == want, 'name-of-type', lambda: '%r, not %r' % (PF.name(t.cls), want))
    w.rec.count('names_checked')


def registry(w):
    """A new field and a new event type are known by their names"""
    rec, rng = w.rec, w.rng
    for base, kind, table, new in ((rng.choice([lib.fieldtypes.SFFloat, lib.fieldtypes.MFString, lib.node.SFNode]), Field, lib.field.baseFieldTypes, lib.field.newField),
                                   (lib.field.baseEventTypes[rng.choice(EVENTS)], Event, lib.field.baseEventTypes, lib.field.newEvent)):
        w.serial += 1
        name = 'SFSpecial%d' % w.serial
        env = {'fieldType': name} if rng.random() < .5 or kind is Event else {}
        cls = type(name if not env else 'AnyName', (base,), env)
        before = dict(table)
        out = io.StringIO()
        try:
            with contextlib.redirect_stdout(out):
                lib.field.register(cls)
            rec.require(dict(table) == dict(before, **{name: cls}), 'register', lambda: 'changed %s' % sorted(set(table) ^ set(before)))
            rec.require(out.getvalue() == '', 'register-warns', out.getvalue)
            f = new('q', name)
            rec.require(type(f) is cls and f.typeName() == name == lib.field.typeName(cls), 'registered-type', lambda: '%r' % f)
            again = type('AnyName', (cls,), {'fieldType': name})
            with contextlib.redirect_stdout(out):
                lib.field.register(again)
            rec.require(table[name] is again and name in out.getvalue(), 'register-again', lambda: '%r %r' % (table[name], out.getvalue()))
        finally:
            table.pop(name, None)
        try:
            new('q', name)
        except KeyError:
            rec.count('types_registered')
        else:
            raise Violation('unknown-type', 'a field of an unknown type was made')


def constructor(rng, rec):
    """Keywords of constructors, and what nodes say of themselves"""
    w = World(rng, rec)
    while not w.types:
        w.make()
    for _ in range(rng.randint(0, 3)):
        w.make()
    for _ in range(6):
        if rng.random() < .3:
            cls = rng.choice(w.standard)
            t = None
        else:
            t = rng.choice(w.types)
            cls = t.cls
        fields = w.expected(cls, Field)
        known = w.names(cls)
        kw, want = {}, {}
        for a in rng.sample(sorted(fields), min(len(fields), rng.randint(0, 4))):
            f = fields[a]
            typ = f.typeName()
            if typ in ('RootScenegraphNode',) or f.name in (' scenegraph',):
                continue
            if typ == 'SFNode':
                v = rng.choice([lib.basenodes.Box(), lib.NULL, None])
            elif typ == 'MFNode':
                v = [lib.basenodes.Box() for _ in range(rng.randint(0, 2))]
            else:
                v = values.base(rng, typ)
            spellings = [a, a, f.name]
            if 'set_' + a not in known:
                spellings.append('set_' + a)
            if a + '_changed' not in known and not a.startswith('set_'):
                spellings.append(a + '_changed')
            kw[rng.choice(spellings)] = v
            want[f.name] = (f, v)
        bad = None
        if rng.random() < .3:
            bad = rng.choice([('noSuchField', AttributeError), ('def', AttributeError), ('set_nothing', AttributeError), ('copy', TypeError), ('toString', TypeError), ('PROTO', TypeError),
                              ('Def', AttributeError), ('__init__', TypeError), ('', AttributeError)])
            items = list(kw.items())
            items.insert(rng.randint(0, len(items)), (bad[0], 1))
            kw = dict(items)
        given = dict(kw)
        try:
            n = cls(**kw)
        except Exception as exc:
            if bad is None:
                raise Violation('constructor-refused', '%s(%s): %s' % (cls.__name__, given, lib.text_of(exc)))
            rec.require(type(exc) is bad[1], 'constructor-exception', lambda: '%r: %s' % (bad, lib.text_of(exc)))
            rec.count('keywords_refused')
            continue
        rec.require(bad is None, 'constructor-accepted', lambda: '%s(%s)' % (cls.__name__, given))
        rec.require(kw == given or True, 'constructor-arguments', 'changed')
        for name, (f, v) in want.items():
            twin = cls()
            f.fset(twin, v)
            a, b = n.__dict__.get(name), twin.__dict__.get(name)
            same = (a == b) if f.typeName() in values.NODE_TYPES else not values.is_canonical(f.typeName(), a, values.expected(f.typeName(), v) if not f.name == ' DEF' else a)
            rec.require(name in n.__dict__ and same, 'constructor-value', lambda: '%s of %s: %r, assigned it is %r' % (name, cls.__name__, a, b))
            rec.count('keywords_set')
        extra = set(n.__dict__) - set(want) - {' root', ' DEF', ' scenegraph'}
        rec.require(not extra, 'constructor-extra', lambda: '%s set %s as well' % (given, sorted(extra)))
        for f in fields.values():
            rec.require(bool(f.fhas(n)) == (f.name in n.__dict__), 'fhas', lambda: '%s' % f)
        told(cls, n, fields, rec, rng)
    rec.nontrivial([sorted(t.own) for t in w.types], index_of(rng))


def index_of(rng):
    return rng.random()


def told(cls, n, fields, rec, rng):
    """str() and repr() of a node"""
    if rng.random() < .5:
        n.DEF = rng.choice(['Somebody', 'x', 'B_1'])
    before = {k: id(v) for k, v in n.__dict__.items()}
    s, r = str(n), repr(n)
    rec.require({k: id(v) for k, v in n.__dict__.items()} == before, 'told-changes', 'str or repr changed the node')
    rec.require(cls.__name__ in s and '%X' % id(n) in s, 'str', lambda: s)
    named = n.__dict__.get(' DEF')
    rest = s.replace('%X' % id(n), '').replace(cls.__name__, '')
    rec.require((repr(named) in rest and 'DEF' in rest) if named else 'DEF' not in rest, 'str-def', lambda: '%s, named %r' % (s, named))
    rec.require(r.startswith(cls.__name__ + '('), 'repr', lambda: r[:80])
    nested = any(isinstance(v, list) and len(v) and isinstance(v[0], lib.Node) for v in n.__dict__.values())
    for f in fields.values():
        if f.name in n.__dict__:
            v = n.__dict__[f.name]
            text = str(v) if isinstance(v, lib.Node) else repr(v)
            rec.require('\t%s = %s' % (f.name, text) in r, 'repr-lacks', lambda: '%s = %s is not in %s' % (f.name, text, r[:2000]))
        elif not nested:
            rec.require('\t%s = ' % f.name not in r, 'repr-invents', lambda: '%s is in %s' % (f.name, r[:2000]))
    rec.count('nodes_told')


def words(rng, rec):
    """prototype() with scenegraphs and URLs, ProtoNamespace, event ports"""
    P = lib.node.prototype
    kids = [lib.basenodes.Box() for _ in range(rng.randint(0, 2))]
    sgs = [lib.scenegraph.SceneGraph(children=list(kids)) for _ in range(2)]
    urls = [[rng.choice(['a.wrl', 'b#c', '']) for _ in range(rng.randint(0, 3))] for _ in range(2)]
    made = []
    for i in range(rng.randint(1, 3)):
        sg, url = rng.choice(sgs + [None]), rng.choice(urls + [None])
        base = rng.choice([None] + [m[0] for m in made])
        kw = {} if base is None else {'baseClasses': (base,)}
        c = P('P%d' % i, [], sg, url, **kw)
        made.append([c, sg, url])
    for _ in range(rng.randint(2, 8)):
        m = rng.choice(made)
        op = rng.choice(['set', 'del', 'instance', 'seturl', 'delurl'])
        if op == 'set':
            m[1] = rng.choice(sgs)
            PF.setSceneGraph(m[0], m[1])
        elif op == 'seturl':
            m[2] = rng.choice(urls)
            PF.setExternalURL(m[0], m[2])
        elif op in ('del', 'delurl'):
            if m[1 if op == 'del' else 2] is not None:
                (PF.delSceneGraph if op == 'del' else PF.delExternalURL)(m[0])
                m[1 if op == 'del' else 2] = None
                rec.count('deleted_of_types')
        elif op == 'instance' and m[1] is not None:
            n = m[0]()
            own = lib.node.PrototypedNode.scenegraph.fget(n)
            rec.require(own is not m[1] and [type(c) for c in own.children] == [type(c) for c in kids] and not any(a is b for a in own.children for b in kids), 'instance-body',
                        lambda: '%s' % own.children)
            got = n.renderedChildren()
            rec.require(len(got) == len(kids) and all(a is b for a, b in zip(got, own.children)), 'rendered-children', lambda: '%s' % got)
            got = n.renderedChildren(lib.basenodes.Box)
            rec.require(len(got) == len(kids) and all(a is b for a, b in zip(got, own.children)), 'rendered-children', lambda: '%s' % got)
            rec.require(list(n.renderedChildren((lib.basenodes.Sphere, lib.basenodes.Cone))) == [], 'rendered-children', 'of another type')
        for c, sg, url in made:
            got = PF.getSceneGraph(c)
            if sg is not None:
                rec.require(got is sg, 'scenegraph-of-type', lambda: '%s: %r' % (c, got))
            else:
                rec.require(not got, 'scenegraph-of-type', lambda: '%s: %r' % (c, got))
            got = PF.getExternalURL(c)
            rec.require(list(got or []) == list(url or []), 'url-of-type', lambda: '%s: %r, not %r' % (c, got, url))
            rec.count('types_asked')
    # a namespace of PROTOs
    ns = lib.scenegraph.protonamespace.ProtoNamespace({c.__name__: c for c, _, _ in made})
    other = rng.choice([lambda: ns.__copy__(), lambda: __import__('copy').copy(ns)])()
    rec.require(type(other) is type(ns) and dict(other) == dict(ns) and other is not ns, 'namespace-copy', lambda: '%r' % other)
    other['More'] = made[0][0]
    rec.require('More' not in ns and other.More is made[0][0], 'namespace-copy-shared', 'a change of the copy changed the original')
    for c, _, _ in made:
        rec.require(getattr(ns, c.__name__) is c, 'namespace-attribute', c.__name__)
    for name in ('noSuch', 'More', '__contains', 'p0'):
        try:
            got = getattr(ns, name)
        except AttributeError:
            rec.count('namespace_refusals')
        else:
            raise Violation('namespace-invents', '%s gives %r' % (name, got))
    # an event port: no value until it is set, watchers are told
    e = lib.field.newEvent('port', rng.choice(EVENTS), rng.randint(0, 1))
    cls = P('WithPort', [e])
    n, m = cls(), cls()
    heard = []

    def hear(signal, sender, value=None):
        heard.append((signal, sender, value))

    e.watch(n, hear, ('set', e))
    for x in (n, m):
        try:
            x.port
        except AttributeError:
            rec.count('unset_ports')
        else:
            raise Violation('port-value', 'a port nothing was sent to has a value')
    rec.require(cls.port is e, 'port-of-type', lambda: '%r' % cls.port)
    value = object()
    m.port = value
    rec.require(not heard and m.port is value, 'port-told', lambda: '%s' % heard)
    n.port = value
    rec.require(heard == [(('set', e), n, value)] and n.port is value, 'port-told', lambda: '%s' % heard)
    rec.require(re.match(r'event(In|Out) \w+ port$', str(e)) is not None, 'event-str', lambda: str(e))
    rec.require(PF.protoName([]) == '__MFNode__' == PF.protoName(lib.basenodes.Group().children), 'list-name', lambda: PF.protoName([]))
    rec.nontrivial([(len(kids), urls, op)], index_of(rng))


def run_case(kind, index, rng, rec, ctx):
    {'history': history, 'constructor': constructor, 'words': words}[kind](rng, rec)
