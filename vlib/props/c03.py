"""C03: malformed documents are refused, and the parser works on afterwards."""
import re

from .. import gen, lib
from ..rec import Violation
from ..spec97 import NODES, WIDTH, MWIDTH

CLEANUP_EVERY = 20


def plan(tier, mode):
    k = 1 if tier == 'quick' else 14
    return [('mutate', 320 * k), ('value', 320 * k), ('template', 160 * k), ('deep', 10 * k)]


def run_case(kind, index, rng, rec, ctx):
    p = lib.parser(fresh=index % 25 == 0)
    if kind == 'deep':
        return deep(rng, rec, p)
    if kind == 'mutate':
        bad = mutated(rng)
    elif kind == 'value':
        bad = bad_value(rng)
    else:
        bad = template(rng)
    # several malformed documents from one valid one, then a valid one with the same parser
    for mech, text in bad:
        try:
            lib.parse(text, p)
        except lib.NotParsed:
            rec.count('refused_by_result')
        except (RecursionError, MemoryError, SystemError) as exc:
            raise Violation('breaks:' + mech, '%s instead of a parse error' % type(exc).__name__, text[:4000])
        except Exception:
            rec.count('refused_by_exception')
        else:
            raise Violation('accepted:' + mech, 'malformed document accepted', text[:6000])
        rec.count('refused_' + mech)
        rec.nontrivial(text)
        if rng.random() < .5:
            leftovers(text, p, rng, rec)
    if index in (0, 5, 9) and bad:
        rec.sample('%s: %s' % (bad[0][0], bad[0][1][:1000]))
    g = gen.Gen(rng, size=6, hard=False)
    ast = g.scene_ast()
    text = gen.Emitter(rng, 'plain').document(ast)
    try:
        sg = lib.parse(text, p)
        gen.Compare(rec, lib).scene(ast, sg, 'scene')
    except gen.Mismatch as m:
        raise Violation('later-parse-differs', m.text, text[:6000])
    except Exception as exc:
        raise Violation('later-parse-refused', lib.text_of(exc), text[:6000])
    rec.count('valid_parses_after_refusals')


def deep(rng, rec, p):
    """Nested deeper than can be read: refused by an exception, and nothing is left behind"""
    depth = rng.choice([rng.randint(41, 200), rng.randint(200, 400), rng.randint(400, 3000)])
    k = rng.randrange(4)
    if k == 0:
        text = 'DEF A Group { children [ ' * depth + 'DEF B Box { }' + ' ] }' * depth
    elif k == 1:
        text = 'Shape { } ' + 'Transform { translation 1 2 3 children ' * depth + 'Shape { }' + ' }' * depth
    elif k == 2:
        text = ''.join('PROTO P%d [ field SFInt32 a %d ] { ' % (i, i) for i in range(depth)) + 'Group { }' + ' }' * depth
    else:
        text = 'Switch { choice [ Group { } Group { children ' * depth + 'NULL' + ' } ] }' * depth
    text = '#VRML V2.0 utf8\n' + text
    try:
        sg = lib.parse(text, p)
    except Exception:
        rec.count('refused_too_deep')
    else:
        # not refused: then all of it was read
        n, levels = sg.children[-1] if len(sg.children) else sg, 0
        while True:
            below = [c for f in ('children', 'choice') for c in (list(getattr(n, f)) if f in vars(n) else []) if c]
            if not below:
                break
            n, levels = below[-1], levels + 1
        want = {0: depth, 1: depth, 2: None, 3: 2 * depth - 1}[k]
        if want is not None and levels != want:
            raise Violation('deep-incomplete', '%d levels instead of %d' % (levels, want), text[:3000])
        rec.count('read_deep')
    rec.maximum('nesting', depth)
    g = gen.Gen(rng, size=6, hard=False)
    ast = g.scene_ast()
    text2 = gen.Emitter(rng, 'plain').document(ast)
    try:
        gen.Compare(rec, lib).scene(ast, lib.parse(text2, p), 'scene')
    except gen.Mismatch as m:
        raise Violation('later-parse-differs', m.text, text2[:6000])
    except Exception as exc:
        raise Violation('later-parse-refused', lib.text_of(exc), text2[:6000])
    rec.count('valid_parses_after_refusals')
    rec.nontrivial(text)


# (the internal names of the parser's own constructors can be used as node types)
NOT_TYPES = {'Script', 'ROUTE', 'sceneGraph', 'NULL', 'PROTO'}
WORD = r'\s+([A-Za-z_][A-Za-z_0-9]*)'
PROTOS, DEFS = re.compile('PROTO' + WORD), re.compile('DEF' + WORD)


def leftovers(text, p, rng, rec):
    """No PROTO or DEF of a refused document is known to the documents after it"""
    protos = sorted(set(PROTOS.findall(text)) - set(NODES) - NOT_TYPES)
    defs = sorted(set(DEFS.findall(text)))
    probes = []
    if protos:
        probes += [('PROTO', t % rng.choice(protos)) for t in ('%s { }', 'Group { children [ %s { } ] }', 'PROTO Q0 [ ] { %s { } } Q0 { }')]
    if defs:
        probes += [('DEF', t % rng.choice(defs)) for t in ('USE %s', 'Group { children [ USE %s ] }', 'DEF q0 Group { } ROUTE %s.children TO q0.children')]
    for what, probe in rng.sample(probes, min(2, len(probes))):
        probe = '#VRML V2.0 utf8\n' + probe
        try:
            lib.parse(probe, p)
        except Exception:
            rec.count('leftover_probes_refused')
        else:
            raise Violation('leftover-' + what, 'after a refused document its %s is known: %s' % (what, probe), (text[:4000], probe))


def mutated(rng):
    g = gen.Gen(rng, size=rng.choice([4, 12, 30]), weird=rng.random() < .3, dup=rng.random() < .3)
    ast = g.scene_ast()
    out = []
    for _ in range(4):
        e = gen.Emitter(rng, rng.choice(['plain', 'dense', 'wild']))
        e.scene(ast)
        toks = list(e.toks)
        m = mutation(rng, e, toks)
        if m:
            mech, toks = m
            e.toks = toks
            tail = ''
            if mech == 'unterminated-string':
                # nothing after the string may close it
                tail = None
            text = e.text(toks)
            if tail is None:
                cut = text.rfind('"')
                if text.count('"', cut + 1):
                    continue
            out.append((mech, text))
    return out


def mutation(rng, e, toks):
    """(mechanism, tokens) of a document broken in one place"""
    where = lambda pred: [i for i, t in enumerate(toks) if pred(i, t)]
    pick = lambda l: rng.choice(l) if l else None
    role = lambda r: pick(e.roles.get(r, []))
    kind = rng.choice(['truncate', 'delete-bracket', 'extra-bracket', 'swap-bracket', 'unknown-type', 'unknown-field', 'delete-word', 'keyword-name',
                       'digit-name', 'unknown-datatype', 'unterminated-string', 'route-syntax', 'unknown-use', 'unknown-route-name', 'stray-value',
                       'undeclared-is', 'delete-interface-brackets', 'bad-number'])
    opens = lambda i: sum({'{': 1, '[': 1, '}': -1, ']': -1}.get(t, 0) for k, t in toks[:i] if k == 'p')
    new = list(toks)
    if kind == 'truncate':
        i = pick([i for i in range(1, len(toks)) if opens(i) > 0])
        if i is None:
            return None
        return kind, toks[:i]
    if kind == 'delete-bracket':
        i = pick(where(lambda i, t: t[0] == 'p' and t[1] in '{}[]'))
        if i is None:
            return None
        del new[i]
        return kind, new
    if kind == 'extra-bracket':
        i = rng.randint(0, len(toks))
        new.insert(i, ('p', rng.choice('{}[]')))
        return kind, new
    if kind == 'swap-bracket':
        i = pick(where(lambda i, t: t[0] == 'p' and t[1] in '{}[]'))
        if i is None:
            return None
        new[i] = ('p', {'{': '[', '}': ']', '[': '{', ']': '}'}[toks[i][1]])
        return kind, new
    if kind == 'unknown-type':
        i = role('type')
        if i is None:
            return None
        new[i] = ('w', 'No' + toks[i][1] + 'Such')
        return kind, new
    if kind == 'unknown-field':
        i = role('field')
        if i is None:
            return None
        new[i] = ('w', 'no_' + toks[i][1] + 'such')
        return kind, new
    if kind == 'delete-word':
        # a word of a statement that cannot do without it
        r = rng.choice(['datatype', 'to', 'routename', 'proto', 'route', 'script'])
        i = role(r)
        if i is None:
            return None
        del new[i]
        if r == 'script' and i and toks[i - 1] == ('w', 'USE'):
            return None
        return kind + '-' + r, new
    if kind == 'keyword-name':
        i = role('declared')
        if i is None:
            return None
        new[i] = rng.choice([('p', '{'), ('p', '['), ('s', '"name"'), ('p', '.')])
        return kind, new
    if kind == 'digit-name':
        i = role('declared')
        if i is None:
            return None
        new[i] = ('w', '%d%s' % (rng.randint(0, 9), toks[i][1]))
        return kind, new
    if kind == 'unknown-datatype':
        i = role('datatype')
        if i is None:
            return None
        new[i] = ('w', rng.choice(['SFNumber', 'MFBoolean', 'SFvec3f', 'MF', 'Float', 'SFVec9f', 'XYZ', toks[i][1] + 'x']))
        return kind, new
    if kind == 'unterminated-string':
        strings = where(lambda i, t: t[0] == 's')
        i = strings[-1] if strings else None
        if i is None:
            return None
        new[i] = ('s', toks[i][1][:-1] + ' z')
        # the string now runs to the end of the file
        if any('"' in t for k, t in new[i + 1:]):
            return None
        return kind, new[:i + 1] + [t for t in new[i + 1:]]
    if kind == 'route-syntax':
        i = role('to')
        if i is None:
            return None
        new[i] = ('w', rng.choice(['TOO', 'T', 'to', 'ROUTE', 'IS']))
        return kind, new
    if kind == 'unknown-use':
        i = role('use')
        if i is None:
            return None
        new[i] = ('w', 'no_such_' + toks[i][1])
        return kind, new
    if kind == 'unknown-route-name':
        i = role('routename')
        if i is None:
            return None
        new[i] = ('w', 'no_such_' + toks[i][1])
        return kind, new
    if kind == 'stray-value':
        i = rng.choice([0, len(toks)])
        new.insert(i, rng.choice([('w', '5'), ('s', '"x"'), ('w', 'TRUE'), ('w', '-1.5')]))
        if i == 0 or toks[-1][1] in '}]':
            return kind, new
        return None
    if kind == 'undeclared-is':
        # IS outside of a PROTO body: a node at the end of the file
        new += [('w', rng.choice(['Group', 'Anchor'])), ('p', '{'), ('w', 'children'), ('w', 'IS'), ('w', 'anything'), ('p', '}')]
        return kind, new
    if kind == 'delete-interface-brackets':
        i = role('proto')
        if i is None:
            return None
        j = i + 2
        if new[j] != ('p', '['):
            return None
        del new[j]
        return kind, new
    if kind == 'bad-number':
        cand = [(s, e_) for typ, s, e_ in e.field_tokens if typ[2:] in ('Float', 'Time', 'Vec2f', 'Vec3f', 'Color', 'Rotation', 'Int32', 'Image')]
        cand = [i for s, t in cand for i in range(s, t) if toks[i][0] == 'w']
        i = pick(cand)
        if i is None:
            return None
        new[i] = ('w', rng.choice(['1.2.3', '1e', '--1', '+-2', '1e5e5', '0x', '1_000', 'abc', '1,5.', 'NaN', 'nan', 'inf', '1e+', '$1', '1.e.', '0xg', '1f']))
        if new[i][1] == '1,5.':
            new[i] = ('w', '1..5')
        return kind, new


GOOD = {'SFBool': 'TRUE', 'SFInt32': '4', 'SFFloat': '1.5', 'SFTime': '2.5', 'SFString': '"s"', 'SFNode': 'Group { }', 'MFNode': '[ Group { } ]',
        'MFString': '[ "s" ]', 'MFInt32': '[ 1 2 ]', 'MFFloat': '[ 1.5 ]', 'MFTime': '[ 2.5 ]', 'SFImage': '1 1 1 0'}


def wrong(rng, typ):
    """(what, text) of a value that is not one of the type"""
    out = []
    number = typ[2:] in ('Float', 'Time', 'Int32', 'Image', 'Vec2f', 'Vec3f', 'Color', 'Rotation')
    if number:
        out += [('string-for-number', '"1"'), ('bool-for-number', 'TRUE'), ('node-for-number', 'Box { }'), ('null-for-number', 'NULL'),
                ('name-for-number', 'abc'), ('use-for-number', 'USE KnownNode')]
        if typ[:2] == 'MF' or typ == 'SFImage':
            out += [('string-for-number', '[ "1" "2" ]'), ('string-for-number', '[ 1 2 "3" ]'), ('bool-for-number', '[ TRUE ]'), ('node-for-number', '[ 1 2 Box { } ]')]
        if typ[2:] in ('Int32', 'Image'):
            out += [('float-for-integer', rng.choice(['1.5', '1e3', '2.0', '.5', '[ 1 2 3.5 ]'] if typ[0] == 'M' else ['1.5', '1e3', '2.0']))]
        w = WIDTH.get(typ) or (1 if typ in ('SFFloat', 'SFTime', 'SFInt32') else None)
        if w:
            n = rng.choice([k for k in range(1, 9) if k != w])
            out += [('wrong-count', ' '.join('%d' % rng.randint(0, 9) for _ in range(n)))] * 3
            if typ != 'SFImage':
                out += [('wrong-count', '[ ]')]
        w = MWIDTH.get(typ)
        if w:
            n = rng.choice([k for k in range(1, 14) if k % w])
            out += [('wrong-count', '[ %s ]' % ' '.join('%d' % rng.randint(0, 9) for _ in range(n)))] * 3
    elif typ == 'SFBool':
        out = [('number-for-bool', rng.choice(['0', '1', '1.5'])), ('string-for-bool', '"TRUE"'), ('case-of-bool', rng.choice(['true', 'True', 'FALSEx', 'TRUE1', 'false'])),
               ('wrong-count', 'TRUE TRUE'), ('node-for-bool', 'Box { }'), ('null-for-bool', 'NULL'), ('wrong-count', '[ ]')]
    elif typ == 'SFString':
        out = [('number-for-string', '5'), ('bool-for-string', 'TRUE'), ('name-for-string', 'abc'), ('wrong-count', '"a" "b"'), ('node-for-string', 'Box { }'),
               ('null-for-string', 'NULL'), ('wrong-count', '[ ]'), ('single-quotes', "'abc'")]
    elif typ == 'MFString':
        out = [('number-for-string', '5'), ('number-for-string', '[ "a" 5 ]'), ('bool-for-string', 'TRUE'), ('name-for-string', 'abc'), ('name-for-string', '[ "a" abc ]'),
               ('node-for-string', '[ Box { } ]'), ('null-for-string', 'NULL'), ('bool-for-string', '[ TRUE ]')]
    elif typ == 'SFNode':
        out = [('number-for-node', '5'), ('string-for-node', '"Box"'), ('bool-for-node', 'FALSE'), ('name-for-node', 'Box'), ('wrong-count', 'Group { } Group { }'),
               ('number-for-node', 'Group { } 5'), ('use-of-nothing', 'USE NoSuchNode'), ('number-for-node', '0 0 0')]
    elif typ == 'MFNode':
        out = [('number-for-node', '5'), ('number-for-node', '[ Group { } 5 ]'), ('string-for-node', '"Box"'), ('string-for-node', '[ "Box" Group { } ]'),
               ('bool-for-node', '[ FALSE ]'), ('name-for-node', '[ Group ]'), ('use-of-nothing', '[ Group { } USE NoSuchNode ]'), ('list-in-list', '[ [ Group { } ] ]')]
    what, text = rng.choice(out)
    return '%s:%s' % (what, typ), text


HOLDERS = {}
for _name, _spec in NODES.items():
    for _f, (_x, _t, _d) in _spec.fields.items():
        HOLDERS.setdefault(_t, []).append((_name, _f))


def bad_value(rng):
    out = []
    for _ in range(4):
        typ = rng.choice(gen.spec97.TYPES)
        what, text = wrong(rng, typ)
        k = rng.randrange(4)
        pre = 'DEF KnownNode Group { } ' if 'USE' in text else ''
        if k == 0 and typ in HOLDERS:
            name, f = rng.choice(HOLDERS[typ])
            doc = '%s { %s %s }' % (name, f, text)
        elif k == 1:
            doc = 'Script { %s %s q1 %s }' % (rng.choice(['field', 'exposedField']), typ, text)
        elif k == 2:
            doc = 'PROTO P [ %s %s q1 %s ] { Group { } } P { }' % (rng.choice(['field', 'exposedField']), typ, text)
        else:
            good = GOOD.get(typ) or ' '.join(['0.5'] * (WIDTH.get(typ) or MWIDTH[typ]))
            doc = 'PROTO P [ %s %s q1 %s ] { Group { } } P { q1 %s }' % (rng.choice(['field', 'exposedField']), typ, good, text)
        if rng.random() < .3:
            doc = 'Group { children [ %s ] }' % doc if not doc.startswith('PROTO') else doc
        out.append((what, '#VRML V2.0 utf8\n%s%s\nGroup { }\n' % (pre, doc)))
    return out


TEMPLATES = [
    ('missing-default', 'PROTO P [ field SFFloat x ] { Group {} } P {}'), ('missing-default', 'PROTO P [ exposedField MFString x eventIn SFBool y ] { Group {} }'),
    ('missing-default', 'Script { field SFFloat x }'), ('event-with-value', 'PROTO P [ eventIn SFFloat x 1 ] { Group {} }'),
    ('event-with-value', 'Script { eventOut SFFloat x 1 }'), ('event-with-value', 'TimeSensor { isActive TRUE }'), ('event-with-value', 'Group { addChildren [ Group {} ] }'),
    ('event-with-value', 'Collision { collideTime 5 }'), ('event-with-value', 'Background { set_bind TRUE }'),
    ('extern-with-default', 'EXTERNPROTO P [ field SFFloat x 1 ] "u"'), ('extern-without-url', 'EXTERNPROTO P [ field SFFloat x ] Group {}'),
    ('extern-brackets', 'EXTERNPROTO P [ ] [ "u" '), ('extern-brackets', 'EXTERNPROTO P [ ] "u" ]'), ('extern-url-kind', 'EXTERNPROTO P [ ] 5'), ('extern-url-kind', 'EXTERNPROTO P [ ] [ "u" 5 ]'),
    ('no-body', 'PROTO P [ ]'), ('no-body', 'PROTO P [ ] Group {}'), ('no-interface', 'PROTO P { Group {} }'), ('no-name', 'PROTO [ ] { Group {} }'),
    ('no-name', 'DEF Group {}'), ('no-name', 'Group { children DEF Box {} }'), ('no-name', 'USE'), ('no-name', 'Group {} USE'), ('no-name', 'Group {} USE # Group'),
    ('no-name', 'DEF A Group {} ROUTE A.children TO A.'), ('no-name', 'DEF A Group {} ROUTE A.'), ('no-name', 'DEF A Group {} ROUTE .children TO A.children'),
    ('def-of-use', 'DEF A Group {} DEF B USE A'), ('def-twice', 'DEF A DEF B Group {}'), ('def-without-node', 'DEF A'), ('def-without-node', 'Group { children [ DEF A ] }'),
    ('route-spaces', 'DEF A Group {} ROUTE A . children TO A.children'), ('route-ends', 'DEF A Group {} ROUTE A.children TO A'), ('route-ends', 'DEF A Group {} ROUTE A TO A.children'),
    ('route-ends', 'DEF A Group {} ROUTE A.children A.children'), ('route-unnamed', 'DEF A Group {} ROUTE A.children TO B.children'), ('route-unnamed', 'DEF A Group {} ROUTE Group.children TO A.children'),
    ('is-outside', 'Group { children IS x }'), ('is-outside', 'Script { field SFFloat x IS y }'), ('is-outside', 'PROTO P [ field MFNode c [ ] ] { Group { } } Group { children IS c }'),
    ('is-undeclared', 'PROTO P [ field SFVec3f v 0 0 0 ] { Group { children IS c } } P {}'),
    ('node-without-body', 'Group'), ('node-without-body', 'Group { children [ Group ] }'), ('node-in-node', 'Group { Box {} }'), ('node-in-node', 'Group { DEF A Group {} }'),
    ('field-without-value', 'Box { size }'), ('field-without-value', 'Group { children }'), ('field-without-value', 'Box { size # 1 2 3\n}'),
    ('field-at-top', 'children [ Group {} ]'), ('value-at-top', '[ Group {} ]'), ('value-at-top', 'NULL'), ('value-at-top', 'Group {} , 5'), ('word-at-end', 'Group {} word'),
    ('statement-in-list', 'Group { children [ PROTO P [ ] { Group {} } ] }'), ('statement-in-list', 'DEF A Group { children [ ROUTE A.children TO A.children ] }'),
    ('interface-in-node', 'Group { field SFFloat x 1 }'), ('interface-in-node', 'Box { eventIn SFFloat x }'), ('case-of-keyword', 'def A Group {}'), ('case-of-keyword', 'proto P [ ] { Group {} }'),
    ('case-of-keyword', 'DEF A Group {} Use A'), ('case-of-type', 'group {}'), ('case-of-type', 'BOX {}'), ('case-of-field', 'Box { Size 1 1 1 }'),
    ('case-of-keyword', 'Shape { geometry null }'), ('case-of-keyword', 'script { }'), ('unterminated-string', 'WorldInfo { title "abc }'), ('unterminated-string', 'WorldInfo { title "abc\\" }'),
    ('unterminated-string', 'WorldInfo { title "'), ('null-in-list', 'Group { children [ NULL ] }'), ('quote-in-name', 'DEF a"b Group {}'), ('hash-hides', 'Group { # }'),
    ('backslash-name', 'DEF a\\b Group {}'), ('dot-in-name', 'DEF a.b Group {}'), ('xml', '<Scene><Group/></Scene>'), ('access-word', 'PROTO P [ Field SFFloat x 1 ] { Group {} }'),
    ('access-word', 'Script { eventIO SFFloat x }'), ('access-word', 'PROTO P [ fieldx SFFloat x 1 ] { Group {} }'),
]


def template(rng):
    out = []
    for mech, body in rng.sample(TEMPLATES, 3):
        pre = rng.choice(['', '', 'Group { }\n', 'DEF Z Shape { geometry Sphere { radius 2 } } USE Z ', '# comment\n', 'PROTO Q [ ] { Box { } } Shape { geometry Q { } } '])
        out.append((mech, '#VRML V2.0 utf8\n' + pre + body + rng.choice(['', ' ', '\n', '\n\n'])))
    return out
