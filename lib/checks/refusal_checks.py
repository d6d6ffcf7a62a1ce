"""C23: schemas with one flaw, against the compiler's duty to refuse them; each has a twin without the flaw, which it has to accept."""
import copy, os, re
from lib import build, gensuite, schema, variants
from lib.checks.gen_checks import schemas
from lib.checks.wire_checks import rng_for, scale
from lib.schema import Comp, Module, Ty, Value

OUTPUTS = ('gen.hpp', 'gen.fwd.hpp', 'gen.detail.hpp')
LEAVES = [Ty('int'), Ty('bool'), Ty('null'), Ty('str', sub='OctetString'), Ty('str', sub='UTF8String'), Ty('real'), Ty('oid')]


# ---------------------------------------------------------------- flaws in random schemas
def every_type(mods):
    """(module, holder, attribute or index) of every type, top-level ones included"""
    for m in mods:
        for i, (n, t) in enumerate(m.types):
            yield m, m.types, i
            for h, a in variants.subtypes(t):
                yield m, h, a


def get(h, a):
    return h[a][1] if isinstance(h, list) else getattr(h, a)


def put(h, a, t):
    if isinstance(h, list):
        h[a] = (h[a][0], t)
    else:
        setattr(h, a, t)


def where(h, a):
    return 'a definition' if isinstance(h, list) else 'a component' if isinstance(h, Comp) else 'an element' if a == 'elem' else 'a tagged type'


def refs(mods):
    return [(m, get(h, a)) for m, h, a in every_type(mods) if get(h, a).kind == 'ref']


def unresolved(mods):
    """whether a reference or an import has nothing it refers to"""
    r = schema.Resolver(mods)
    for m, t in refs(mods):
        try:
            r.find(t, m)
        except KeyError:
            return True
    for m in mods:
        for o, names in m.imports:
            if o not in r.mods:
                return True
            for n in names:
                try:
                    r.find(Ty('ref', name=n), r.mods[o])
                except KeyError:
                    return True
    return False


def holders(mods, kinds):
    return [(m, get(h, a)) for m, h, a in every_type(mods) if get(h, a).kind in kinds]


def undefined_type(rng, mods):
    m, h, a = rng.choice(list(every_type(mods)))
    w = where(h, a)
    r = Ty('ref', name=rng.choice(['Undefined-Type', 'X', 'Zz9', 'Integer2']))
    k = rng.randrange(5)
    if k == 0:
        r = Ty('seqof', elem=r)
        w += ', under SEQUENCE OF'
    elif k == 1:
        r = Ty('tag', cls=2, num=rng.choice([0, 77]), mode=rng.choice([None, 'IMPLICIT', 'EXPLICIT']), inner=r)
        w += ', under a tag'
    elif k == 2 and rng.random() < .5:
        r = Ty('seq', comps=[Comp('fine', Ty('int'), 'opt'), Comp('other', Ty('tag', cls=2, num=5, mode=None, inner=r), rng.choice([None, 'opt']))])
        w += ', in a SEQUENCE'
    if isinstance(h, Comp) and h.opt == 'def':
        h.opt = None
    put(h, a, r)
    return 'undefined type in ' + w


def undefined_in_new_component(rng, mods):
    hs = [x for x in holders(mods, ('seq', 'set', 'choice')) if not any(c.of for c in x[1].comps)]
    if not hs:
        return None
    m, t = rng.choice(hs)
    c = Comp('extra-component', Ty('tag', cls=2, num=991, mode=None, inner=Ty('ref', name='Undefined-Type')), None if t.kind == 'choice' else rng.choice([None, 'opt', 'opt']))
    i = rng.randint(0, len(t.comps))
    t.comps.insert(i, c)
    if t.ext is not None and i < t.ext:
        t.ext += 1
    if t.ext2 is not None and i < t.ext2:
        t.ext2 += 1
    return 'undefined type in an additional component of a %s' % t.kind


def undefined_module(rng, mods):
    m, h, a = rng.choice(list(every_type(mods)))
    o = rng.choice(mods)
    if isinstance(h, Comp) and h.opt == 'def':
        h.opt = None
    if rng.random() < .5:
        put(h, a, Ty('ref', name=rng.choice(o.types)[0], mod='NoSuchModule'))
        return 'undefined module in ' + where(h, a)
    put(h, a, Ty('ref', name='Undefined-Type', mod=o.name))
    return 'undefined type of a module in ' + where(h, a)


def removed_definition(rng, mods):
    used = {(t.name) for _, t in refs(mods)} | {n for m in mods for _, ns in m.imports for n in ns}
    cs = [(m, i) for m in mods for i, (n, _) in enumerate(m.types) if n in used and len(m.types) > 1]
    if not cs:
        return None
    m, i = rng.choice(cs)
    del m.types[i]
    return 'removed definition' if unresolved(mods) else None


def removed_import(rng, mods):
    cs = [(m, k) for m in mods for k in range(len(m.imports))]
    if not cs:
        return None
    m, k = rng.choice(cs)
    names = m.imports[k][1]
    names.remove(rng.choice(names))
    if not names:
        del m.imports[k]
    return 'removed import' if unresolved(mods) else None


def bad_import(rng, mods):
    m = rng.choice(mods)
    k = rng.randrange(4)
    others = [o for o in mods if o is not m and mods.index(o) < mods.index(m)]
    if k == 0 or not others:
        m.imports.append(('NoSuchModule', [rng.choice(['Some-Type', 'some-value'])]))
        return 'import from an undefined module'
    o = rng.choice(others)
    n = rng.choice(['Undefined-Type', 'Undefined-Type', 'undefined-value'])
    for x, names in m.imports:
        if x == o.name:
            names.insert(rng.randint(0, len(names)), n)
            break
    else:
        m.imports.append((o.name, [n]))
    return 'import of an undefined %s' % ('value' if n[0] == 'u' else 'type')


def removed_module(rng, mods):
    if len(mods) < 2:
        return None
    mods.remove(rng.choice(mods))
    return 'removed module' if unresolved(mods) else None


def duplicate_definition(rng, mods):
    m = rng.choice(mods)
    n, t = rng.choice(m.types)
    imported = [x for _, ns in m.imports for x in ns]
    k = rng.randrange(4)
    if k == 0 and imported:
        m.types.insert(rng.randint(0, len(m.types)), (rng.choice(imported), copy.deepcopy(rng.choice(LEAVES))))
        return 'definition with the name of an import'
    if k == 1:
        m.values.append(Value('same-value', Ty('int'), '1'))
        m.values.append(Value('same-value', Ty(rng.choice(['int', 'bool'])), '1') if rng.random() < .5 else Value('same-value', Ty('bool'), 'TRUE'))
        if m.values[-1].ty.kind == 'bool':
            m.values[-1].text = 'TRUE'
        return 'duplicate value'
    if k == 2:
        m.types.insert(rng.randint(0, len(m.types)), (n, copy.deepcopy(t)))
        return 'duplicate definition, identical'
    m.types.insert(rng.randint(0, len(m.types)), (n, copy.deepcopy(rng.choice(LEAVES))))
    return 'duplicate definition'


def duplicate_module(rng, mods):
    m = rng.choice(mods)
    c = copy.deepcopy(m) if rng.random() < .5 else Module(m.name, m.tagging)
    if not c.types:
        c.types.append(('Another-Type', Ty('int')))
    mods.insert(rng.randint(0, len(mods)), c)
    return 'duplicate module'


def duplicate_component(rng, mods):
    hs = [t for _, t in holders(mods, ('seq', 'set', 'choice')) if len(t.comps) > 1 and not any(c.of for c in t.comps)]
    if not hs:
        return None
    t = rng.choice(hs)
    a, b = rng.sample(t.comps, 2)
    b.name = a.name
    return 'duplicate %s' % ('alternative' if t.kind == 'choice' else 'component of a ' + t.kind)


def duplicate_item(rng, mods):
    hs = [t for _, t in holders(mods, ('enum',)) if len(t.items) > 1]
    if not hs:
        return None
    t = rng.choice(hs)
    i, j = rng.sample(range(len(t.items)), 2)
    if rng.random() < .5:
        t.items[j] = (t.items[i][0], t.items[j][1])
        return 'duplicate item'
    v = dict(schema.enum_numbers(t))[t.items[i][0]]
    k = t.ext if t.ext is not None else len(t.items)
    if i >= k or j >= k:
        return None     # the number of additions without one depends on the others
    t.items[i] = (t.items[i][0], v)
    t.items[j] = (t.items[j][0], v)
    return 'duplicate number of items'


def same_tag(rng, mods):
    hs = [(m, t) for m, t in holders(mods, ('set', 'choice')) if t.comps and not any(c.of for c in t.comps)]
    if not hs:
        return None
    m, t = rng.choice(hs)
    r = schema.Resolver(mods)
    i = rng.randrange(len(t.comps))
    try:
        tags = sorted(r.outer_comp(t, i, m))
    except (KeyError, RecursionError):
        return None
    if not tags:
        return None
    cls, num = rng.choice(tags)
    if cls == 0:
        inner = [x for x in (Ty('bool'), Ty('int'), Ty('null'), Ty('real'), Ty('oid'), Ty('str', sub='OctetString'), Ty('str', sub='UTF8String'), Ty('enum', items=[('x', None)]),
                             Ty('seqof', elem=Ty('int')), Ty('setof', elem=Ty('int')), Ty('seq', comps=[]), Ty('set', comps=[])) if schema.natural_tag(x.kind, x.sub) == (cls, num)]
        if not inner:
            return None
        c = copy.deepcopy(rng.choice(inner))
    else:
        c = Ty('tag', cls=cls, num=num, mode=rng.choice([None, 'EXPLICIT', 'IMPLICIT']), inner=copy.deepcopy(rng.choice(LEAVES)))
    how = 'directly'
    k = rng.randrange(4)
    if k == 0:
        c = Ty('choice', comps=[Comp('one-of', c), Comp('other-of', Ty('tag', cls=2, num=880, mode=None, inner=Ty('null')))])
        how = 'through a CHOICE'
    if k in (0, 1) and rng.random() < .7:
        m.types.append(('Colliding-Type', c))
        c = Ty('ref', name='Colliding-Type')
        how += ' and a reference'
    if rng.random() < .4 and len(t.comps) > 1:
        j = rng.choice([x for x in range(len(t.comps)) if x != i])
        t.comps[j].ty = c
        if t.comps[j].opt == 'def':
            t.comps[j].opt = 'opt'
    else:
        j = rng.randint(0, len(t.comps))
        t.comps.insert(j, Comp('colliding-name', c, None if t.kind == 'choice' else rng.choice([None, 'opt'])))
        if t.ext is not None and j < t.ext:
            t.ext += 1
        if t.ext2 is not None and j < t.ext2:
            t.ext2 += 1
    try:
        e = schema.valid(mods)
    except (KeyError, RecursionError):
        return None
    return 'same tag in a %s, %s' % (t.kind, how) if e == 'duplicate tag in ' + t.kind else None


def same_tag_after_optional(rng, mods):
    hs = [(m, t, i) for m, t in holders(mods, ('seq',)) if not any(c.of for c in t.comps) for i, c in enumerate(t.comps[:-1])]
    hs = [(m, t, i) for m, t, i in hs if t.comps[i].ty.kind != 'ref' or True]
    if not hs:
        return None
    m, t, i = rng.choice(hs)
    a, b = t.comps[i], t.comps[i + 1]
    if a.opt is None:
        a.opt = 'opt'
    r = schema.Resolver(mods)
    try:
        tags = sorted(r.outer_comp(t, i, m))
        if rng.random() < .5 or not tags or tags[-1][0] == 0:
            b.ty = copy.deepcopy(a.ty)
        else:
            cls, num = rng.choice([x for x in tags if x[0] != 0])
            b.ty = Ty('tag', cls=cls, num=num, mode=rng.choice([None, 'EXPLICIT']), inner=copy.deepcopy(rng.choice(LEAVES)))
            if rng.random() < .4:
                b.ty = Ty('choice', comps=[Comp('first-of', Ty('tag', cls=2, num=881, mode=None, inner=Ty('null'))), Comp('second-of', b.ty)])
        b.opt = rng.choice([None, 'opt'])
        hit = r.outer_comp(t, i, m) & r.outer_comp(t, i + 1, m)
    except (KeyError, RecursionError):
        return None
    return 'same tag after an optional component' if hit and t.ext not in (i + 1,) and t.ext2 not in (i + 1,) else None


def undefined_value(rng, mods):
    m = rng.choice(mods)
    k = rng.randrange(4)
    if k == 0:
        t = copy.deepcopy(rng.choice(LEAVES))
        m.values.append(Value('some-value', t, 'undefined-value'))
        return 'value defined by an undefined value: ' + (t.sub or t.kind)
    if k == 1:
        m.types.append(('Numbered-Type', Ty('int', deco=' {one(1), two(undefined-value)}')))
        return 'named number with an undefined value'
    if k == 2:
        m.values.append(Value('typed-value', Ty('ref', name='Undefined-Type'), '5'))
        return 'value of an undefined type'
    hs = [c for _, t in holders(mods, ('seq', 'set')) for c in t.comps if not c.of and c.opt is None]
    if not hs:
        return None
    c = rng.choice(hs)
    c.opt, c.dtext = 'def', 'undefined-value'
    return 'DEFAULT which is an undefined value'


FLAWS = [undefined_type, undefined_type, undefined_in_new_component, undefined_module, removed_definition, removed_import, bad_import, removed_module, duplicate_definition,
         duplicate_module, duplicate_component, duplicate_component, duplicate_item, same_tag, same_tag, same_tag, same_tag_after_optional, undefined_value]


# ---------------------------------------------------------------- hand-written ones
def corpus():
    """(label, files with the flaw, files without)"""
    out = []

    def one(label, bad, good, env='AUTOMATIC', before=''):
        h = before + 'Main DEFINITIONS %s TAGS ::= BEGIN\n%s\nEND\n'
        out.append((label, [h % (env, bad)], [h % (env, good)]))
    B = '\nB ::= OCTET STRING'
    b = '\nb INTEGER ::= 5'
    for label, t in [('SET component', 'A ::= SET { a B }'), ('alternative', 'A ::= CHOICE { a B, c NULL }'), ('SEQUENCE OF', 'A ::= SEQUENCE OF B'), ('SET OF', 'A ::= SET OF B'),
                     ('nested SEQUENCE OF', 'A ::= SEQUENCE { a SEQUENCE OF SET OF B }'), ('alias', 'A ::= B'), ('tag', 'A ::= [5] B'),
                     ('parameter', 'P{T} ::= SEQUENCE { a T }\nA ::= P{B}'), ('parameter which is not used', 'P{T} ::= SEQUENCE { a INTEGER }\nA ::= P{B}'),
                     ('parameterized type', 'P{T} ::= SEQUENCE { a B, b T }\nA ::= P{INTEGER}'), ('parameterized type which is not used', 'P{T} ::= SEQUENCE { a B, b T }\nA ::= INTEGER'),
                     ('component after an extension', 'A ::= SEQUENCE { a INTEGER, ..., c B }'), ('alternative after an extension', 'A ::= CHOICE { a INTEGER, ..., c B }'),
                     ('own module', 'A ::= SEQUENCE { a Main.B }')]:
        one('undefined type: ' + label, t, t + B)
    one('undefined type: COMPONENTS OF', 'A ::= SEQUENCE { COMPONENTS OF B }', 'A ::= SEQUENCE { COMPONENTS OF B }\nB ::= SEQUENCE { x INTEGER }')
    one('undefined type: parameterized', 'A ::= P{INTEGER}', 'A ::= P{INTEGER}\nP{T} ::= SEQUENCE { a T }')
    one('undefined type: value', 'a C ::= 5', 'a C ::= 5\nC ::= INTEGER')
    for label, t in [('value', 'a INTEGER ::= b'), ('DEFAULT', 'A ::= SEQUENCE { a INTEGER DEFAULT b }'), ('SET DEFAULT', 'A ::= SET { a [3] INTEGER DEFAULT b }'), ('named number', 'A ::= INTEGER { x(b) }'),
                     ('named number of a component', 'A ::= SEQUENCE { a INTEGER { x(b), y(2) } }'), ('named number in SEQUENCE OF', 'A ::= SEQUENCE OF INTEGER { x(b) }'), ('named bit', 'A ::= BIT STRING { x(b) }'),
                     ('named bit of a component', 'A ::= SET { a BIT STRING { x(b) } OPTIONAL }'), ('item', 'A ::= ENUMERATED { x(b), y }'), ('item of a component', 'A ::= SEQUENCE { a ENUMERATED { x(b) } }'),
                     ('item in SEQUENCE OF', 'A ::= SEQUENCE OF ENUMERATED { x(b) }'), ('item of an alternative', 'A ::= CHOICE { a ENUMERATED { x(b) } }'),
                     ('DEFAULT in a parameterized type', 'P{T} ::= SEQUENCE { a INTEGER DEFAULT b, c T }\nA ::= P{INTEGER}')]:
        one('undefined value: ' + label, t, t + b)
    for label, t, d in [('BOOLEAN', 'BOOLEAN', 'TRUE'), ('string', 'UTF8String', '"x"'), ('octets', 'OCTET STRING', "'00'H"), ('object identifier', 'OBJECT IDENTIFIER', '{1 2 3}'), ('REAL', 'REAL', '1.5'), ('bits', 'BIT STRING', "'1'B")]:
        one('undefined value: %s DEFAULT' % label, 'A ::= SEQUENCE { a %s DEFAULT z }' % t, 'A ::= SEQUENCE { a %s DEFAULT z }\nz %s ::= %s' % (t, t, d))
        one('undefined value: %s' % label, 'a %s ::= z' % t, 'a %s ::= z\nz %s ::= %s' % (t, t, d))
    one('undefined value: item', 'A ::= ENUMERATED {x, y}\na A ::= z', 'A ::= ENUMERATED {x, y}\na A ::= x')
    one('undefined value: item as DEFAULT', 'A ::= SEQUENCE { a ENUMERATED {x,y} DEFAULT z }', 'A ::= SEQUENCE { a ENUMERATED {x,y} DEFAULT y }')
    one('undefined value: named number as DEFAULT', 'A ::= SEQUENCE { a INTEGER {x(1)} DEFAULT z }', 'A ::= SEQUENCE { a INTEGER {x(1)} DEFAULT x }')
    one('undefined value: object identifier arc', 'a OBJECT IDENTIFIER ::= { 1 2 foo }', 'a OBJECT IDENTIFIER ::= { 1 2 foo }\nfoo INTEGER ::= 7')
    N = 'Other DEFINITIONS AUTOMATIC TAGS ::= BEGIN\nX ::= INTEGER\n%s\nEND\n'
    for n, d in (('B', 'B ::= BOOLEAN'), ('b', 'b INTEGER ::= 5')):
        for u, t in (('unused', 'A ::= INTEGER'), ('used', 'A ::= SEQUENCE { a B }' if n == 'B' else 'A ::= SEQUENCE { a INTEGER DEFAULT b }')):
            m = 'Main DEFINITIONS AUTOMATIC TAGS ::= BEGIN\nIMPORTS %s FROM Other;\n%s\nEND\n' % (n, t)
            k = 'type' if n == 'B' else 'value'
            out.append(('undefined import: %s, %s' % (k, u), [N % '', m], [N % d, m]))
            out.append(('undefined module: %s, %s' % (k, u), [m], [N % d, m]))
        out.append(('not imported: ' + k, [N % d, m.replace('IMPORTS %s FROM Other;' % n, '')], [N % d, m]))
        out.append(('import and definition: ' + k, [N % d, m.replace(';', ';\n' + d)], [N % d, m]))
        out.append(('import twice: ' + k, [N % d, (N % d).replace('Other', 'Third'), m.replace('Other;', 'Other %s FROM Third;' % n)], [N % d, (N % d).replace('Other', 'Third'), m]))
    out.append(('duplicate module', [N % '', N % ''], [N % '']))
    out.append(('duplicate module in one file', [N % '' + N % B], [N % '']))
    D = [('type', 'A ::= INTEGER', 'A ::= BOOLEAN'), ('type, identical', 'A ::= INTEGER', 'A ::= INTEGER'), ('value', 'a INTEGER ::= 5', 'a INTEGER ::= 6'),
         ('parameterized type', 'P{T} ::= SEQUENCE {a T}', 'P{T} ::= SET {a T}'), ('type and parameterized type', 'P{T} ::= SEQUENCE {a T}', 'P ::= INTEGER')]
    for label, x, y in D:
        one('duplicate definition: ' + label, x + '\nM ::= NULL\n' + y, x + '\nM ::= NULL')
    for label, t in [('SEQUENCE', 'SEQUENCE { a INTEGER, b NULL, %s BOOLEAN }'), ('SET', 'SET { a INTEGER, %s BOOLEAN }'), ('CHOICE', 'CHOICE { a INTEGER, %s BOOLEAN }'), ('extension', 'SEQUENCE { a INTEGER, ..., %s BOOLEAN }'),
                     ('CHOICE extension', 'CHOICE { a INTEGER, ..., %s BOOLEAN }'), ('ENUMERATED', 'ENUMERATED { a, %s }'), ('ENUMERATED extension', 'ENUMERATED { a, ..., %s }'),
                     ('INTEGER', 'INTEGER { a(1), %s(2) }'), ('BIT STRING', 'BIT STRING { a(1), %s(2) }')]:
        for w, p in [('', 'A ::= %s'), (' of a component', 'A ::= SEQUENCE { x %s }'), (' in SEQUENCE OF', 'A ::= SEQUENCE OF %s'), (' of an alternative', 'A ::= CHOICE { x %s }'),
                     (' deep', 'A ::= SET { x SEQUENCE { y SET OF CHOICE { z %s } } }'), (' with a tag', 'A ::= [APPLICATION 4] %s'), (' in a parameterized type', 'P{T} ::= SEQUENCE { x %s, y T }\nA ::= P{NULL}')]:
            one('duplicate name: ' + label + w, p % (t % 'a'), p % (t % 'c'))
    one('duplicate name: COMPONENTS OF', 'B ::= SEQUENCE { a INTEGER }\nA ::= SEQUENCE { a BOOLEAN, COMPONENTS OF B }', 'B ::= SEQUENCE { c INTEGER }\nA ::= SEQUENCE { a BOOLEAN, COMPONENTS OF B }')
    one('duplicate number: ENUMERATED', 'A ::= ENUMERATED { a(1), b(1) }', 'A ::= ENUMERATED { a(1), b(2) }')
    one('duplicate number: ENUMERATED, by reference', 'v INTEGER ::= 1\nA ::= ENUMERATED { a(1), b(v) }', 'v INTEGER ::= 2\nA ::= ENUMERATED { a(1), b(v) }')
    one('duplicate number: INTEGER', 'A ::= INTEGER { a(1), b(1) }', 'A ::= INTEGER { a(1), b(2) }')
    for env in ('EXPLICIT', 'IMPLICIT'):
        for label, t, c in [('tag', 'a [0] INTEGER, b [%s] BOOLEAN', ('0', '1')), ('built-in type', 'a INTEGER, b %s', ('INTEGER', 'BOOLEAN')), ('reference', 'a INTEGER, b %s', ('I', 'BOOLEAN')),
                            ('nested CHOICE', 'a INTEGER, b CHOICE { c %s, d NULL }', ('INTEGER', 'BOOLEAN')), ('nested CHOICE by reference', 'a INTEGER, b %s', ('Ch', 'BOOLEAN')),
                            ('two CHOICEs', 'x CHOICE { a INTEGER, e REAL }, b CHOICE { c %s, d NULL }', ('INTEGER', 'BOOLEAN')), ('tag of a reference', 'a [1] BOOLEAN, b %s', ('Tg', 'BOOLEAN')),
                            ('APPLICATION', 'a [APPLICATION 3] BOOLEAN, b [%s 3] IMPLICIT INTEGER', ('APPLICATION', 'PRIVATE')), ('UNIVERSAL', 'a [UNIVERSAL %s] IMPLICIT BOOLEAN, b INTEGER', ('2', '29')),
                            ('SEQUENCE and SEQUENCE OF', 'a SEQUENCE {}, b %s OF INTEGER', ('SEQUENCE', 'SET')), ('SET and SET OF', 'a SET {}, b %s OF INTEGER', ('SET', 'SEQUENCE')),
                            ('same string', 'a VisibleString, b %s', ('ISO646String', 'IA5String')), ('T61String', 'a TeletexString, b %s', ('T61String', 'IA5String')), ('extension', 'a INTEGER, ..., b %s', ('INTEGER', 'BOOLEAN')),
                            ('large tag', 'a [123456789012] INTEGER, b [%s] NULL', ('123456789012', '123456789013')), ('explicit and implicit', 'a [7] EXPLICIT INTEGER, b [%s] IMPLICIT INTEGER', ('7', '8'))]:
            for k in ('CHOICE', 'SET'):
                rest = '\nI ::= INTEGER\nCh ::= CHOICE { c INTEGER, d NULL }\nTg ::= [1] INTEGER'
                one('same tag: %s, %s, %s TAGS' % (label, k, env), 'A ::= %s { %s }' % (k, t % c[0]) + rest, 'A ::= %s { %s }' % (k, t % c[1]) + rest, env)
        one('same tag: optional components of a SET, %s TAGS' % env, 'A ::= SET { a INTEGER OPTIONAL, b INTEGER OPTIONAL }', 'A ::= SET { a INTEGER OPTIONAL, b NULL OPTIONAL }', env)
        one('same tag: COMPONENTS OF, %s TAGS' % env, 'B ::= SET { b INTEGER }\nA ::= SET { a INTEGER, COMPONENTS OF B }', 'B ::= SET { b NULL }\nA ::= SET { a INTEGER, COMPONENTS OF B }', env)
        one('same tag: parameterized SET, %s TAGS' % env, 'P{T} ::= SET { a INTEGER, b T }\nA ::= P{INTEGER}', 'P{T} ::= SET { a INTEGER, b T }\nA ::= P{NULL}', env)
        one('same tag: parameterized CHOICE, %s TAGS' % env, 'P{T} ::= CHOICE { a INTEGER, b T }\nA ::= P{INTEGER}', 'P{T} ::= CHOICE { a INTEGER, b T }\nA ::= P{NULL}', env)
        for o in ('OPTIONAL', 'DEFAULT 5'):
            one('same tag: after an optional component, %s, %s TAGS' % (o, env), 'A ::= SEQUENCE { a INTEGER %s, b INTEGER }' % o, 'A ::= SEQUENCE { a INTEGER %s, b NULL }' % o, env)
            for w, t in (('second', 'x NULL, y %s'), ('third', 'x NULL, z REAL, y %s'), ('nested', 'x NULL, z CHOICE { u REAL, v %s }'), ('additional', 'x NULL, ..., y %s')):
                one('same tag: %s alternative after an optional component, %s, %s TAGS' % (w, o, env), 'A ::= SEQUENCE { a INTEGER %s, b CHOICE { %s } }' % (o, t % 'INTEGER'), 'A ::= SEQUENCE { a INTEGER %s, b CHOICE { %s } }' % (o, t % 'BOOLEAN'), env)
                if o == 'OPTIONAL':
                    one('same tag: optional CHOICE with %s alternative, %s TAGS' % (w, env), 'A ::= SEQUENCE { b CHOICE { %s } OPTIONAL, a INTEGER }' % (t % 'INTEGER'), 'A ::= SEQUENCE { b CHOICE { %s } OPTIONAL, a INTEGER }' % (t % 'BOOLEAN'), env)
                    for k in ('SET', 'CHOICE'):
                        one('same tag: %s alternative in a %s, %s TAGS' % (w, k, env), 'A ::= %s { b CHOICE { %s }, a INTEGER }' % (k, t % 'INTEGER'), 'A ::= %s { b CHOICE { %s }, a INTEGER }' % (k, t % 'BOOLEAN'), env)
            one('same tag: CHOICE after an optional component, %s, %s TAGS' % (o, env), 'A ::= SEQUENCE { a INTEGER %s, b CHOICE { x INTEGER, y NULL } }' % o, 'A ::= SEQUENCE { a INTEGER %s, b CHOICE { x REAL, y NULL } }' % o, env)
    one('same tag: AUTOMATIC TAGS with a tag', 'A ::= CHOICE { a [0] INTEGER, b [0] BOOLEAN }', 'A ::= CHOICE { a [0] INTEGER, b [1] BOOLEAN }')
    for label, x, y in [('types', 'A ::= B\nB ::= A', 'A ::= B\nB ::= INTEGER'), ('three types', 'A ::= B\nB ::= C\nC ::= A', 'A ::= B\nB ::= C\nC ::= NULL'), ('tagged types', 'A ::= [1] B\nB ::= [2] A', 'A ::= [1] B\nB ::= INTEGER'),
                        ('itself', 'A ::= A', 'A ::= INTEGER'), ('values', 'a INTEGER ::= b\nb INTEGER ::= a', 'a INTEGER ::= b\nb INTEGER ::= 5'), ('COMPONENTS OF', 'A ::= SEQUENCE { COMPONENTS OF A }', 'A ::= SEQUENCE { COMPONENTS OF B }\nB ::= SEQUENCE { x NULL }'),
                        ('object identifiers', 'a OBJECT IDENTIFIER ::= { b 1 }\nb OBJECT IDENTIFIER ::= { a 2 }', 'a OBJECT IDENTIFIER ::= { b 1 }\nb OBJECT IDENTIFIER ::= { 1 2 }')]:
        one('refers to itself: ' + label, x, y)
    return out


def c23(chk):
    chk.rule = 'distinct schema texts with one flaw which the compiler has to refuse, and whose twins without the flaw it accepted'
    rng = rng_for('C23')
    exe = build.build_compiler()
    d = build.sub('refusals')
    jobs = []       # (label, files with the flaw, files without)
    for label, bad, good in corpus():
        jobs.append((label, [('f%d.asn' % i, t) for i, t in enumerate(bad)], [('f%d.asn' % i, t) for i, t in enumerate(good)]))
    n = scale(90, 900)
    for k, s in enumerate(schemas(rng, n)):
        good = [(m.name + '.asn', schema.module_text(m)) for m in s]
        picked = FLAWS if k < 8 else rng.sample(FLAWS, 8)
        for f in picked:
            c = copy.deepcopy(s)
            label = f(rng, c)
            if label is None:
                continue
            style = schema.PLAIN if rng.random() < .7 else schema.WildStyle(rng)
            texts = [schema.module_text(m, style) for m in c]
            if rng.random() < .3:
                texts = [''.join(texts)]
            jobs.append((label, [('g%d.asn' % i, t) for i, t in enumerate(texts)], good))
    if chk.replaying is not None:
        jobs = [j for j in jobs if [list(x) for x in j[1]] == chk.replaying.get('files')] or \
               [(chk.replaying['flaw'], [tuple(x) for x in chk.replaying['files']], [tuple(x) for x in chk.replaying['without']])]
    goods = {}
    for _, _, g in jobs:
        goods.setdefault(str(g), g)

    def compile_(i, files):
        sd = os.path.join(d, 's%s' % i)
        os.makedirs(sd)
        fs = []
        for n, t in files:
            fs.append(os.path.join(sd, n))
            with open(fs[-1], 'w', newline='') as f:
                f.write(t)
        try:
            r = gensuite.run_compiler(exe, fs, os.path.join(sd, 'gen'))
        except build.subprocess.TimeoutExpired:
            return None, '', []
        left = [n for n in OUTPUTS if os.path.exists(os.path.join(sd, n)) and os.path.getsize(os.path.join(sd, n))]
        return r.returncode, r.stderr.decode(errors='replace'), left
    gl = list(goods)
    gr = dict(zip(gl, build.parallel([lambda i=i, g=g: compile_('good%d' % i, goods[g]) for i, g in enumerate(gl)])))
    rs = build.parallel([lambda i=i, j=j: compile_(i, j[1]) for i, j in enumerate(jobs)])
    vacuous = 0
    for (label, bad, good), (rc, err, left) in zip(jobs, rs):
        g = gr[str(good)]
        if g[0] != 0:
            vacuous += 1
            chk.event('twins without the flaw that were refused too (C19 decides those)')
            chk.sample('twin of "%s" refused: %s' % (label, g[1].strip()[-200:]))
            continue
        rep = {'flaw': label, 'files': [list(x) for x in bad], 'without': [list(x) for x in good]}
        texts = '\n'.join(t for _, t in bad)
        chk.case(nontrivial=texts)
        key = re.sub('[^A-Za-z]+', '-', label).strip('-')

        def v(k, what):
            chk.violation('%s:%s' % (k, key), '%s: %s; schema: %s' % (label, what, texts[-1200:]), rep)
        chk.event('flaws: ' + label.split(':')[0].split(',')[0])
        if rc is None:
            v('hang', 'the compiler does not end')
        elif rc == 0:
            v('accepted', 'the compiler accepts it, and says %r' % err.strip()[-200:])
        elif rc < 0:
            v('crash', 'the compiler is killed by signal %d: %s' % (-rc, err.strip()[-300:]))
        elif not err.strip():
            v('silent', 'refused with status %d but without a message' % rc)
        elif left:
            v('output', 'refused, but left ' + ', '.join(left))
        else:
            chk.event('refused with a message')
            if chk.count % 97 == 1:
                chk.sample('%s -> %s' % (label, err.strip().split('\n')[-1][:200]))
    if vacuous * 4 > len(jobs):
        raise build.HarnessError('%d of %d twins without a flaw were refused' % (vacuous, len(jobs)))
    chk.minimum = 1 if chk.replaying is not None else 100
    chk.assumptions.append('which schemas are ill-formed is decided by lib/schema.py (tags, references) or by construction, following X.680')
