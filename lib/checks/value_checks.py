"""C21: value assignments and DEFAULTs against the values the schema text denotes, as read from the compiled generated code."""
import os, struct
from fractions import Fraction
from lib import build, cppgen, drv, gensuite, schema, wire
from lib.checks.wire_checks import rng_for, scale

STRS = ['UTF8String', 'IA5String', 'PrintableString', 'VisibleString', 'NumericString', 'GeneralString', 'GraphicString', 'TeletexString', 'VideotexString',
        'UniversalString', 'BMPString', 'T61String', 'ISO646String']
KINDS = ['int', 'int', 'int', 'bool', 'real', 'chars', 'chars', 'octets', 'octets', 'bits', 'bits', 'oid', 'oid', 'null', 'enum', 'enum']
ARCS = {(): [('itu-t', 0), ('ccitt', 0), ('iso', 1), ('joint-iso-itu-t', 2), ('joint-iso-ccitt', 2)],
        (0,): [('recommendation', 0), ('question', 1), ('administration', 2), ('network-operator', 3), ('identified-organization', 4)],
        (1,): [('standard', 0), ('registration-authority', 1), ('member-body', 2), ('identified-organization', 3)]}
STANDARD = [(w, m, t, v) for w, t in ARCS[()] for m, v in (ARCS.get((t,)) or [('9', 9)])]
INTS = [0, 1, -1, 5, 9, 10, 127, 128, 129, 255, 256, -127, -128, -129, 32767, 32768, -32768, 65535, 2**31 - 1, 2**31, -2**31, -2**31 - 1, 2**32 - 1, 2**32, 2**53, 2**53 + 1,
        2**62, 2**63 - 1, -2**63, -2**63 + 1, 10**18]
KEYWORDS = ['class', 'new', 'int', 'default', 'auto', 'register', 'decode', 'true', 'xor', 'errno', 'value', 'type', 'std', 'x', 'id', 'size', 'max-size', 'a-b-c']


def bits_of(f):
    return struct.unpack('>Q', struct.pack('>d', f))[0]


def round_text(s):
    """nearest double to the decimal number, in integers"""
    return float(Fraction(s)) if Fraction(s) else 0.0


# ---------------------------------------------------------------- expected observations: the text of lib.model
def shown(kind, v):
    if kind == 'int':
        return 'i%d;' % v
    if kind == 'enum':
        return 'e%d;' % v
    if kind == 'bool':
        return 'T' if v else 'F'
    if kind == 'null':
        return 'n'
    if kind == 'real':
        return 'r%016x;' % bits_of(v)
    if kind == 'oid':
        return 'o' + '.'.join(map(str, v)) + ';'
    return 's%d:%s' % (len(v), v.hex())


def octets_of_bits(b):
    return int((b + '0' * (-len(b) % 8)) or '0', 2).to_bytes((len(b) + 7) // 8, 'big')


def bitstring(b):
    """the contents octets of a BIT STRING"""
    return bytes([-len(b) % 8]) + octets_of_bits(b)


# ---------------------------------------------------------------- literals
def char_literal(rng):
    """-> (text, octets)"""
    parts, val = [], b''
    for _ in range(rng.choice([0, 1, 1, 2, 3, 6])):
        r = rng.random()
        if r < .5:
            s = ''.join(rng.choice('abcXYZ019 .,:;()[]{}<>|&@#$%^*-+=_~`!/?\'\\') for _ in range(rng.choice([1, 2, 5, 20])))
            parts.append(s)
            val += s.encode()
        elif r < .75:
            parts.append('""')
            val += b'"'
        elif r < .85:
            s = rng.choice(['??/', '??=', '\\n', '\\', '\\\\', '%s', '--', '/*', '*/', '//', '\\x41', '\\u0041', '${x}', '??', 'R"(', "'41'H"]).replace('"', '""')
            parts.append(s)
            val += s.replace('""', '"').encode()
        else:
            parts += [rng.choice(['', '', ' ', ' \t  ']), '\n']
    # X.680 12.14.1: white space around a new line does not belong to the string
    text, out = '', b''
    flat = []
    for p in parts:
        flat += ['\n'] if p == '\n' else ['""' if c == '"' else c for c in p.replace('""', '"')]
    i = 0
    while i < len(flat):
        if flat[i] == '\n':
            while out[-1:] in (b' ', b'\t') and out:
                out = out[:-1]
            while i + 1 < len(flat) and flat[i + 1] in (' ', '\t', '\n'):
                text += flat[i]
                i += 1
            text += flat[i]
            text += rng.choice(['', '', '  ', '\t']) if flat[i] == '\n' else ''
        else:
            text += flat[i]
            out += b'"' if flat[i] == '""' else flat[i].encode()
        i += 1
    return '"' + text + '"', out


def literal(rng, kind):
    """-> (text, value)"""
    if kind == 'int':
        v = rng.choice(INTS) if rng.random() < .6 else rng.choice([1, -1]) * rng.getrandbits(rng.randint(1, 62))
        return str(v), v
    if kind == 'bool':
        v = rng.random() < .5
        return ('TRUE' if v else 'FALSE'), v
    if kind == 'real':
        if rng.random() < .3:
            v = rng.choice([0, 1, 2, 10, 255, 2**31, 2**53, 10**15, -1, -7])
            return str(v), float(v)
        d = lambda lo, hi: ''.join(rng.choice('0123456789') for _ in range(rng.randint(lo, hi)))
        a = rng.choice(['0', '0', str(rng.randint(1, 9)) + d(0, rng.choice([0, 2, 16, 25]))])
        s = a + '.' + rng.choice([d(1, 3), d(1, 20), '0', '5', '1', '25', '0' * rng.randint(1, 30) + d(1, 17), '3333333333333333148'])
        return s, round_text(s)
    if kind == 'chars':
        return char_literal(rng)
    if kind in ('octets', 'bits'):
        if rng.random() < .5:
            h = ''.join(rng.choice('0123456789ABCDEF') for _ in range(rng.choice([0, 1, 2, 3, 4, 7, 16, 33, 64])))
            b = ''.join(format(int(c, 16), '04b') for c in h)
            return "'%s'H" % h, (octets_of_bits(b) if kind == 'octets' else bitstring(b))
        b = ''.join(rng.choice('01') for _ in range(rng.choice([0, 1, 2, 7, 8, 9, 15, 16, 17, 40, 65])))
        return "'%s'B" % b, (octets_of_bits(b) if kind == 'octets' else bitstring(b))
    if kind == 'null':
        return 'NULL', None
    raise ValueError(kind)


class V:
    def __init__(self, name, ty, kind, value, text):
        self.name, self.ty, self.kind, self.value, self.text = name, ty, kind, value, text
        self.enum = None


class Group:
    """a few modules that import from each other, with types, values and structures"""

    def __init__(self, rng, n):
        self.rng, self.n = rng, n
        self.mods = []
        self.count = 0
        for i in range(rng.choice([1, 2, 2, 3])):
            self.module('Val%d%s' % (n, 'ABC'[i]), rng.choice([8, 14, 20]) if i else rng.choice([10, 20]))
        self.files = []
        order = list(self.mods)
        rng.shuffle(order)
        for m in order:
            rng.shuffle(m.items)
        texts = [self.text(m) for m in order]
        while texts:
            k = rng.choice([1, 1, len(texts)])
            self.files.append(('\n'.join(texts[:k])))
            texts = texts[k:]

    def fresh(self, upper, m):
        rng = self.rng
        self.count += 1
        if upper:
            return rng.choice(['Type', 'Alias-type', 'Kind-of', 'T']) + '-%d' % self.count
        if rng.random() < .15:
            free = [k for k in KEYWORDS if k not in m.names and m.rank(k)]
            if free:
                return rng.choice(free)
        return rng.choice(['val', 'max-size', 'the-value', 'v', 'id-of']) + '-%d' % self.count

    def module(self, name, n):
        m = M(name, self.rng.choice(['EXPLICIT', 'IMPLICIT', 'AUTOMATIC']))
        self.mods.append(m)
        rng = self.rng
        for _ in range(n):
            r = rng.random()
            if r < .3:
                self.type(m)
            elif r < .8:
                self.value(m)
            else:
                self.struct(m)
        self.struct(m)

    # -- things other modules define, imported on use; names stay unique in a group, but for keywords
    def reach(self, m, what, test):
        c = [(m, x) for x in getattr(m, what) if test(x)]
        for o in self.mods:
            if o is not m:
                c += [(o, x) for x in getattr(o, what) if test(x) and (x.name not in m.names or x.name in m.imported.get(o.name, ()))]
        return c

    def bring(self, m, o, name):
        if o is not m:
            m.imported.setdefault(o.name, [])
            if name not in m.imported[o.name]:
                m.imported[o.name].append(name)
            m.names.add(name)

    def enum_items(self, rng):
        n = rng.randint(1, 6)
        names = rng.sample(['red', 'green', 'blue', 'dark-grey', 'none', 'first', 'last', 'other-one', 'z9', 'default', 'new'], n)
        items, used = [], set()
        for x in names:
            v = rng.choice([None, None, rng.randint(-3, 12), rng.choice([127, 128, 255, -128, 2**31 - 1, -2**31, 2**31, 2**40, -2**40])])
            if v in used:
                v = None
            if v is not None:
                used.add(v)
            items.append((x, v))
        return items

    def named_type(self, kind, m, named=True):
        """-> Ty info: dict(text, kind, sub, items, module) as a built-in type"""
        rng = self.rng
        if kind == 'enum':
            its = self.enum_items(rng)
            t = schema.Ty('enum', items=its)
            return T('ENUMERATED {' + ', '.join(n if v is None else '%s(%d)' % (n, v) for n, v in its) + '}', 'enum', items=dict(schema.enum_numbers(t)))
        if kind == 'int':
            if rng.random() < .45:
                its, out = {}, []
                for x in rng.sample(['one', 'two', 'max', 'low', 'high-water', 'none', 'other'], rng.randint(1, 4)):
                    refs = self.reach(m, 'values', lambda v: v.kind == 'int' and v.name not in its and v.value not in its.values())
                    if refs and rng.random() < .3:
                        o, v = rng.choice(refs)
                        self.bring(m, o, v.name)
                        its[x] = v.value
                        out.append('%s(%s)' % (x, v.name))
                    else:
                        its[x] = rng.choice([n for n in INTS if n not in its.values()])     # X.680 19.5
                        out.append('%s(%d)' % (x, its[x]))
                return T('INTEGER {' + ', '.join(out) + '}', 'int', items=its)
            return T('INTEGER' + rng.choice(['', '', '', ' (MIN..MAX)']), 'int')
        if kind == 'chars':
            s = rng.choice(STRS)
            return T(s, 'chars', sub=s)
        return T({'bool': 'BOOLEAN', 'real': 'REAL', 'octets': 'OCTET STRING', 'bits': 'BIT STRING' + rng.choice(['', '', ' {first(0), last(7)}']), 'oid': 'OBJECT IDENTIFIER', 'null': 'NULL'}[kind], kind)

    def any_type(self, kind, m, inline_enum):
        """a type expression of the kind"""
        rng = self.rng
        refs = self.reach(m, 'types', lambda t: t.kind == kind)
        if refs and (rng.random() < .6 or (kind == 'enum' and not inline_enum)):
            o, t = rng.choice(refs)
            x = t.name
            if o is not m and rng.random() < .3 and o.name in m.imported:
                x = o.name + '.' + x
            else:
                self.bring(m, o, t.name)
            r = T(x, kind, sub=t.sub, items=t.items)
            r.home = t.home
            r.ref = True
            return r
        if kind == 'enum' and not inline_enum:
            return None
        return self.named_type(kind, m)

    def type(self, m):
        rng = self.rng
        kind = rng.choice(KINDS)
        t = self.any_type(kind, m, True)
        name = self.fresh(True, m)
        if rng.random() < .2:
            t.text = '[%s%d] %s%s' % (rng.choice(['', 'APPLICATION ', 'PRIVATE ']), rng.choice([0, 1, 30, 31, 200]), rng.choice(['', 'IMPLICIT ', 'EXPLICIT ']), t.text)
        t.name = name
        t.home = getattr(t, 'home', None) or (m, name)
        m.types.append(t)
        m.names.add(name)
        m.items.append(name + ' ::= ' + t.text)

    def expression(self, kind, t, m):
        """-> (text, value) for a value of the type"""
        rng = self.rng
        if t.items and rng.random() < .6 or kind == 'enum':
            refs = self.reach(m, 'values', lambda v: v.kind == 'enum' and v.home == getattr(t, 'home', None) and v.name not in t.items) if kind == 'enum' else []
            if refs and rng.random() < .3:
                o, v = rng.choice(refs)
                self.bring(m, o, v.name)
                return v.name, v.value
            n = rng.choice(list(t.items))
            return n, t.items[n]
        refs = self.reach(m, 'values', lambda v: v.kind == kind and (v.sub == t.sub) and v.name not in (t.items or ()))
        if refs and rng.random() < .35:
            o, v = rng.choice(refs)
            self.bring(m, o, v.name)
            return v.name, v.value
        if kind == 'oid':
            return self.oid(m)
        return literal(rng, kind)

    def oid(self, m):
        rng = self.rng
        arcs, out = [], []
        refs = self.reach(m, 'values', lambda v: v.kind == 'oid')
        if refs and rng.random() < .4:
            o, v = rng.choice(refs)
            self.bring(m, o, v.name)
            arcs, out = list(v.value), [v.name]
        while len(arcs) < 2 or rng.random() < .6:
            if len(arcs) == 0:
                a = rng.randint(0, 2)
            elif len(arcs) == 1 and arcs[0] < 2:
                a = rng.randint(0, 39)
            else:
                a = rng.choice([0, 1, 39, 40, 127, 128, 840, 113549, 2**31, 2**32, 2**62, rng.randint(0, 100000)])
            known = ARCS.get(tuple(arcs))
            ints = self.reach(m, 'values', lambda v: v.kind == 'int' and v.value >= 0)
            r = rng.random()
            if known and r < .35:
                n, a = rng.choice(known)
                out.append(n if rng.random() < .6 else '%s(%d)' % (n, a))
            elif len(arcs) >= 2 and ints and r < .5:
                o, v = rng.choice(ints)
                self.bring(m, o, v.name)
                a = v.value
                out.append(v.name)
            elif r < .7:
                out.append('%s(%d)' % (rng.choice(['us', 'rsadsi', 'some-arc', 'pkcs-1', 'iso', 'arc']), a))
            else:
                out.append(str(a))
            arcs.append(a)
        if len(out) == 1 and rng.random() < .5 and out[0][0].islower() and '(' not in out[0]:
            return out[0], tuple(arcs)
        return '{' + ' '.join(out) + '}', tuple(arcs)

    def value(self, m):
        rng = self.rng
        kind = rng.choice(KINDS)
        t = self.any_type(kind, m, False)
        if t is None:
            self.type(m)
            return
        name = self.fresh(False, m)
        x, v = self.expression(kind, t, m)
        ty = t.text if rng.random() < .9 or t.text.startswith('[') else '[%d] %s' % (rng.randint(0, 40), t.text)
        val = V(name, t, kind, v, x)
        val.home = getattr(t, 'home', None)
        val.sub = t.sub
        m.values.append(val)
        m.names.add(name)
        m.items.append('%s %s ::= %s' % (name, ty, x))

    def struct(self, m):
        rng = self.rng
        name = self.fresh(True, m)
        comps = []
        for i in range(rng.randint(1, 8)):
            for _ in range(5):
                kind = rng.choice(KINDS)
                t = self.any_type(kind, m, True)
                if t is not None:
                    break
            for _ in range(10):
                x, v = self.expression(kind, t, m)
                if not x.startswith('{'):  # the grammar has no DEFAULT { }
                    break
            else:
                continue
            comps.append(('%s%d' % (rng.choice(['c', 'field-', 'x']), i), t, kind, v, x, '[%d] %s' % (i, t.text)))
        if not comps:
            return
        m.structs.append((name, comps))
        m.names.add(name)
        m.items.append('%s ::= %s {%s}' % (name, rng.choice(['SEQUENCE', 'SEQUENCE', 'SET']), ', '.join('%s %s DEFAULT %s' % (c[0], c[5], c[4]) for c in comps)))

    def text(self, m):
        imp = ''
        if m.imported:
            imp = 'IMPORTS ' + ' '.join(', '.join(ns) + ' FROM ' + mod for mod, ns in m.imported.items()) + ';\n'
        return '%s DEFINITIONS %s TAGS ::= BEGIN\n%s%s\nEND\n' % (m.name, m.tagging, imp, '\n'.join(m.items))


class M:
    def __init__(self, name, tagging):
        self.name, self.tagging = name, tagging
        self.types, self.values, self.structs, self.items = [], [], [], []
        self.names, self.imported = set(), {}

    def rank(self, k):
        """keywords are used by one module each, so that importing cannot clash"""
        return KEYWORDS.index(k) % 3 == ord(self.name[-1]) - ord('A')


class T:
    def __init__(self, text, kind, sub=None, items=None):
        self.text, self.kind, self.sub, self.items = text, kind, sub, items


# ---------------------------------------------------------------- the odd notations: may be refused, but not mistaken
def odd_values(rng, n):
    """[(label, assignments, [(constant, observation)])]"""
    d = lambda lo, hi: ''.join(rng.choice('0123456789') for _ in range(rng.randint(lo, hi)))
    e = rng.choice(['', '-', '']) + str(rng.randint(0, 12))
    a, b = str(rng.randint(0, 99)), d(1, 4)
    num = a + '.' + b
    big = rng.choice([2**63, 2**64 - 1, 2**64, 2**64 + 5, 10**30])
    i = rng.randint(1, 10**6)
    hexa = ''.join(rng.choice('0123456789ABCDEF') for _ in range(4))
    R = lambda s: shown('real', round_text(s))
    B = lambda s: shown('bits', bitstring(s))
    out = [
        ('negative real', 'x REAL ::= -' + num, [('x', R('-' + num))]),
        ('real with exponent', 'x REAL ::= %se%s' % (num, e), [('x', R('%se%s' % (num, e)))]),
        ('real with exponent', 'x REAL ::= %sE%s' % (num, e), [('x', R('%se%s' % (num, e)))]),
        ('real without fraction', 'x REAL ::= %s.' % a, [('x', R(a))]),
        ('real without fraction', 'x REAL ::= %sE%s' % (a, e), [('x', R('%se%s' % (a, e)))]),
        ('infinite real', 'x REAL ::= PLUS-INFINITY', [('x', 'r7ff0000000000000;')]),
        ('infinite real', 'x REAL ::= MINUS-INFINITY', [('x', 'rfff0000000000000;')]),
        ('real sequence value', 'x REAL ::= {mantissa %s, base 2, exponent 3}' % a, [('x', R(str(int(a) * 8)))]),
        ('real sequence value', 'x REAL ::= {mantissa 5, base 10, exponent -%s}' % a, [('x', R('5e-' + a))]),
        ('large real', 'x REAL ::= ' + str(2**60 + i) + '.5', [('x', R(str(2**60 + i) + '.5'))]),
        ('large integer for a real', 'x REAL ::= ' + str(2**60 + i), [('x', R(str(2**60 + i)))]),
        ('spaced minus', 'x INTEGER ::= - %d' % i, [('x', 'i%d;' % -i)]),
        ('integer too large', 'x INTEGER ::= %d' % big, [('x', 'i%d;' % big)]),
        ('integer too small', 'x INTEGER ::= -%d' % (big + 1), [('x', 'i%d;' % -(big + 1))]),
        ('named number too large', 'I ::= INTEGER {big(%d)} x I ::= big' % big, [('x', 'i%d;' % big)]),
        ('enumeral too large', 'E ::= ENUMERATED {big(%d)} x E ::= big' % big, [('x', 'e%d;' % big)]),
        ('leading zeros', 'x INTEGER ::= 00%d' % i, [('x', 'i%d;' % i)]),
        ('spaced hstring', "x OCTET STRING ::= '%s %s'H" % (hexa, hexa), [('x', shown('octets', bytes.fromhex(hexa + hexa)))]),
        ('hstring over lines', "x OCTET STRING ::= '%s\n  %s'H" % (hexa, hexa), [('x', shown('octets', bytes.fromhex(hexa + hexa)))]),
        ('spaced bstring', "x BIT STRING ::= '1010 11'B", [('x', B('101011'))]),
        ('lower-case hstring', "x OCTET STRING ::= '%s'H" % hexa.lower(), [('x', shown('octets', bytes.fromhex(hexa)))]),
        ('named bits', 'NB ::= BIT STRING {b0(0), b5(5)} x NB ::= {b0, b5}', [('x', B('100001'))]),
        ('named bits', 'NB ::= BIT STRING {b0(0), b5(5)} x NB ::= {b5}', [('x', B('000001'))]),
        ('named bits', 'NB ::= BIT STRING {b0(0), b5(5)} x NB ::= {}', [('x', B(''))]),
        ('characters by table', 'x IA5String ::= {0, 13}', [('x', 's1:0d')]),
        ('list of strings', 'y IA5String ::= "uv" x IA5String ::= {"ab", y, {0, 13}}', [('x', 's5:616275760d')]),
        ('utf-8 string', 'x UTF8String ::= "a\u00e9\u4e2d"', [('x', shown('chars', 'a\u00e9\u4e2d'.encode()))]),
        ('arc by reference in parentheses', 'y INTEGER ::= %d x OBJECT IDENTIFIER ::= {iso member-body foo(y)}' % i, [('x', 'o1.2.%d;' % i)]),
        ('standard arcs', ' '.join('x%d OBJECT IDENTIFIER ::= {%s %s %d}' % (k, w, m, i) for k, (w, m, _, _) in enumerate(STANDARD)), [('x%d' % k, 'o%d.%d.%d;' % (t, v, i)) for k, (_, _, t, v) in enumerate(STANDARD)]),
        ('arc too large', 'x OBJECT IDENTIFIER ::= {2 5 %d}' % big, [('x', 'o2.5.%d;' % big)]),
        ('external value reference', 'y INTEGER ::= %d x INTEGER ::= Odd%d.y' % (i, n), [('x', 'i%d;' % i)]),
        ('value of a CHOICE', 'C ::= CHOICE {a INTEGER} x C ::= a : 5', None),
        ('value of a SEQUENCE', 'S ::= SEQUENCE {a INTEGER} x S ::= {a 5}', None),
        ('value of a SEQUENCE OF', 'S ::= SEQUENCE OF INTEGER x S ::= {1, 2}', None),
        ('empty value of a SEQUENCE OF', 'S ::= SEQUENCE OF INTEGER x S ::= {}', None),
        ('default for a list', 'S ::= SEQUENCE {a SEQUENCE OF INTEGER DEFAULT {}}', None),
        ('time value', 'x GeneralizedTime ::= "20200102030405Z"', None),
        ('time value', 'x UTCTime ::= "200102030405Z"', None),
        ('default time', 'S ::= SEQUENCE {a GeneralizedTime DEFAULT "20200102030405Z"}', None),
        ('any value', 'S ::= SEQUENCE {a ANY DEFAULT NULL}', None),
        ('inline enumeration', 'x ENUMERATED {p(3), q(7)} ::= q', [('x', 'e7;')]),
        ('inline named number', 'x INTEGER {p(3), q(7)} ::= q', [('x', 'i7;')]),
        ('tagged type', 'x [5] EXPLICIT OBJECT IDENTIFIER ::= {1 2 %d}' % i, [('x', 'o1.2.%d;' % i)]),
        ('constrained type', 'x INTEGER (0..%d) ::= %d' % (i, i), [('x', 'i%d;' % i)]),
        ('value set', 'X INTEGER ::= {1 | 2}', []),
        ('mismatch', 'y INTEGER ::= %d x BOOLEAN ::= y' % i, None),
        ('mismatch', 'y BOOLEAN ::= TRUE x INTEGER ::= y', None),
        ('mismatch', 'y OCTET STRING ::= \'%s\'H x BIT STRING ::= y' % hexa, None),
        ('mismatch', 'y BIT STRING ::= \'%s\'H x OCTET STRING ::= y' % hexa, None),
        ('mismatch', 'y INTEGER ::= %d x REAL ::= y' % i, None),
        ('mismatch', 'y NULL ::= NULL x BOOLEAN ::= y', None),
        ('mismatch', 'x BOOLEAN ::= %d' % i, None),
        ('mismatch', 'x INTEGER ::= TRUE', None),
        ('mismatch', 'x INTEGER ::= "%d"' % i, None),
        ('mismatch', 'x INTEGER ::= %s' % num, None),
        ('mismatch', 'x NULL ::= 0', None),
        ('mismatch', 'x OCTET STRING ::= %d' % i, None),
        ('mismatch', 'x OBJECT IDENTIFIER ::= %d' % i, None),
        ('mismatch', 'y INTEGER ::= %d x OBJECT IDENTIFIER ::= y' % i, None),
        ('mismatch', 'y BOOLEAN ::= TRUE x OBJECT IDENTIFIER ::= {1 2 y}', None),
        ('mismatch', 'E ::= ENUMERATED {p, q} x E ::= 1', None),
        ('mismatch', 'E ::= ENUMERATED {p, q} F ::= ENUMERATED {p, q} y F ::= q x E ::= y', None),
        ('not an item', 'E ::= ENUMERATED {p, q} x E ::= r', None),
        ('not a named number', 'I ::= INTEGER {p(1)} x I ::= r', None),
        ('named number before value', 'y INTEGER ::= 1 I ::= INTEGER {y(5)} x I ::= y', [('y', 'i1;'), ('x', 'i5;')]),
        ('enumeral before value', 'E ::= ENUMERATED {y(5), z(6)} y E ::= z x E ::= y', [('y', 'e6;'), ('x', 'e5;')]),
        ('circular', 'x INTEGER ::= y y INTEGER ::= x', None),
        ('circular', 'x OBJECT IDENTIFIER ::= {y 1} y OBJECT IDENTIFIER ::= {x 2}', None),
        ('undefined', 'x INTEGER ::= nothing-like-that', None),
        ('undefined', 'S ::= SEQUENCE {a INTEGER DEFAULT nothing-like-that}', None),
    ]
    return out


# ---------------------------------------------------------------- driver
HEAD = '''#include "vf.hpp"
#include "gen.hpp"
namespace {
void show(vf::Out& o, bool v) { o.put(v ? 'T' : 'F'); }
void show(vf::Out& o, int64_t v) { o.put('i'); o.num(v, ';'); }
void show(vf::Out& o, double v) { fast_ber::vf_dump(o, fast_ber::Real<>(v)); }
void show(vf::Out& o, absl::string_view v) { o.put('s'); o.num(static_cast<int64_t>(v.size()), ':'); o.hex(v.data(), v.size()); }
void show(vf::Out& o, std::nullptr_t) { o.put('n'); }
template <typename I> void show(vf::Out& o, const fast_ber::ObjectIdentifier<I>& v) { fast_ber::vf_dump(o, v); }
template <typename E, absl::enable_if_t<std::is_enum<E>::value, int> = 0> void show(vf::Out& o, E v) { o.put('e'); o.num(static_cast<int64_t>(v), ';'); }
void line(const char* what, const vf::Out& o) { std::printf("%s %s\\n", what, o.s.c_str()); std::fflush(stdout); }
template <typename T> void value(const char* what, const T& v) { vf::Out o; show(o, v); line(what, o); }
template <typename T> void item(const char* what, const T& v) { vf::Out o; fast_ber::vf_dump(o, v); line(what, o); }
template <typename T> void encoding(const char* what, const T& v)
{
    vf::Out o;
    std::vector<uint8_t> b(v.encoded_length());
    fast_ber::EncodeResult r = fast_ber::encode(absl::Span<uint8_t>(b), v);
    if (!r.success || r.length != b.size()) o.put('!');
    o.hex(b.data(), b.size());
    line(what, o);
}
template <typename T> void decoding(T& v, const std::string& hex)
{
    std::string d;
    for (size_t i = 0; i + 1 < hex.size(); i += 2) d += static_cast<char>(std::stoi(hex.substr(i, 2), nullptr, 16));
    vf::Heap h(d);
    if (!fast_ber::decode(absl::Span<const uint8_t>(h.p, h.n), v).success) std::printf("refused %s\\n", hex.c_str());
}
}
int main() {
'''


def cpp_literal(kind, v):
    """the value as the user would write it in C++; None: not tried"""
    if kind == 'int':
        return 'int64_t(%s)' % ('INT64_MIN' if v == -2**63 else '%dLL' % v)
    if kind == 'bool':
        return 'true' if v else 'false'
    if kind == 'real':
        return float(v).hex()
    if kind in ('chars', 'octets'):
        return 'absl::string_view("%s", %d)' % (''.join('\\%03o' % c for c in v), len(v))
    if kind == 'oid':
        return 'fast_ber::ObjectIdentifierComponents{%s}' % ', '.join('%dLL' % a for a in v)
    return None


def program(g):
    """-> (source, expected lines)"""
    src, want = HEAD, []

    def out(call, what, x):
        nonlocal src
        src += '    %s\n' % call.replace('@', '"%s"' % what)
        want.append('%s %s' % (what, x))
    rng = g.rng
    for m in g.mods:
        ns = '::fast_ber::' + cppgen.cname(m.name)
        for v in m.values:
            out('value(@, %s::%s);' % (ns, cppgen.member(v.name)), 'value %s.%s' % (m.name, v.name), shown(v.kind, v.value))
        for name, comps in m.structs:
            t = '%s::%s' % (ns, cppgen.cname(name))
            src += '    {\n    %s s;\n' % t
            where = '%s.%s' % (m.name, name)
            is_set = next(i for i in m.items if i.startswith(name + ' ::= ')).split('::= ')[1].startswith('SET')
            empty = '3100' if is_set else '3000'
            for c in comps:
                out('item(@, s.%s);' % cppgen.member(c[0]), 'default %s.%s' % (where, c[0]), 'd' + shown(c[2], c[3]))
            out('encoding(@, s);', 'encoding %s' % where, empty)
            for c in comps:  # assigned its default, in C++ terms and from a constant
                x = cpp_literal(c[2], c[3])
                if x:
                    src += '    s.%s = %s;\n' % (cppgen.member(c[0]), x)
                else:
                    src += '    s.%s = std::decay_t<decltype(s.%s.get())>(s.%s.get());\n' % ((cppgen.member(c[0]),) * 3)
                out('item(@, s.%s);' % cppgen.member(c[0]), 'assigned its default %s.%s' % (where, c[0]), 'd' + shown(c[2], c[3]))
            out('encoding(@, s);', 'encoding of assigned defaults %s' % where, empty)
            for c in comps:  # something else, then decoded away
                if c[2] in ('int', 'bool', 'chars', 'octets', 'real', 'oid'):
                    o = other(rng, c[2], c[3])
                    src += '    s.%s = %s;\n' % (cppgen.member(c[0]), cpp_literal(c[2], o))
                    out('item(@, s.%s);' % cppgen.member(c[0]), 'assigned another %s.%s' % (where, c[0]), 'x' + shown(c[2], o))
            src += '    decoding(s, "%s");\n' % empty
            for c in comps:
                out('item(@, s.%s);' % cppgen.member(c[0]), 'absent %s.%s' % (where, c[0]), 'd' + shown(c[2], c[3]))
            out('encoding(@, s);', 'encoding after decoding %s' % where, empty)
            src += '    }\n'
    return src + '}\n', want


def other(rng, kind, v):
    while True:
        x = literal(rng, kind)[1] if kind != 'oid' else (1, 2, rng.randint(0, 10**6))
        if x != v:
            return x


class Odd:
    """one odd notation in a module of its own"""

    def __init__(self, n, label, text, want):
        self.n, self.label, self.want = n, label, want
        self.files = ['Odd%d DEFINITIONS AUTOMATIC TAGS ::= BEGIN\n%s\nEND\n' % (n, text)]

    def program(self):
        src = HEAD
        for c, _ in self.want or []:
            src += '    value("value Odd%d.%s", ::fast_ber::Odd%d::%s);\n' % (self.n, c, self.n, c)
        return src + '}\n', ['value Odd%d.%s %s' % (self.n, c, x) for c, x in self.want or []]


# ---------------------------------------------------------------- histories of components
COMPONENTS = ['int', 'int-implicit', 'int-explicit', 'bool', 'enum', 'octets', 'text', 'bits', 'real', 'oid']


def components(chk):
    """DEFAULT and OPTIONAL components of the run-time library, through histories of assignments and decodings"""
    from lib.checks.library_checks import build_lifetimes
    import re
    rng = rng_for('C21-components')
    if chk.replaying is not None:
        lines = [chk.replaying['case']] if chk.replaying.get('harness') == 'defaults' else []
        if not lines:
            return
    else:
        lines = []
        for i in range(scale(12000, 200000)):
            ops = ['%s.%d.%d.%d' % (rng.choice('aaactTddeeeEEwCMX'), rng.randrange(3), rng.randrange(3), rng.choice([0, 0, 1, 2, 3, 4])) for _ in range(rng.randint(1, rng.choice([4, 12, 30])))]
            lines.append('D %s %s %s' % (rng.choice(COMPONENTS), rng.choice(['default', 'default', 'optional', 'dynamic']), ' '.join(ops)))
    exe = build_lifetimes('-O0', name='defaults')
    for line, r in zip(lines, drv.run(exe, lines, 'defaults')):
        if r is None:
            chk.inconclusive += 1
            continue
        if r.kind == 'bad':
            raise build.HarnessError('defaults: ' + r.out)
        chk.case(nontrivial=line)
        kind = ' '.join(line.split(' ')[1:3])
        rep = {'harness': 'defaults', 'case': line}
        if r.kind != 'ok':
            chk.violation('component:%s:%s' % (kind, wire.crash_class(r)), '%s: %s in the history %s' % (kind, drv.summarize(r.report) or r.out, line[:600]), dict(rep, report=r.report[:6000]))
        elif r.out.startswith('VIOL '):
            m = re.match(r'VIOL operation \d+ \((.)\): (.*)', r.out)
            chk.violation('component:%s:%s:%s' % (line.split(' ')[2], m.group(1), m.group(2)), '%s: %s; history: %s' % (kind, r.out[5:], line[:600]), rep)
        else:
            for x in r.out[3:].split(';'):
                if x:
                    k, v = x.rsplit(':', 1)
                    chk.event('components: ' + k, int(v))


def c21(chk):
    chk.rule = 'distinct observations of constants and default components of compiled generated code (their texts, values and circumstances), and distinct unusual notations tried'
    rng = rng_for('C21')
    compiler = build.build_compiler()
    d = build.sub('values')
    lib = [(j, o) for j, o in build.lib_jobs('values-lib', ['-O0'] + build.SAN)]
    build.parallel([j for j, _ in lib])
    objs = [o for _, o in lib]
    n_groups = scale(30, 400)
    work = [Group(rng, i) for i in range(n_groups)]
    for i in range(scale(1, 8)):
        for x in odd_values(rng, 0):
            work.append(None)
            n = len(work)
            label, text, want = x
            work[-1] = Odd(n, label, text.replace('Odd0.', 'Odd%d.' % n), want)
    if chk.replaying is not None:
        work = [w for w in work if w.files == chk.replaying.get('files')]

    def one(k, w):
        sd = os.path.join(d, 'g%d' % k)
        os.makedirs(sd)
        fs = []
        for i, t in enumerate(w.files):
            fs.append(os.path.join(sd, 'f%d.asn' % i))
            with open(fs[-1], 'w', newline='') as f:
                f.write(t)
        r = gensuite.run_compiler(compiler, fs, os.path.join(sd, 'gen'))
        if r.returncode:
            return 'refused', r.stderr.decode(errors='replace'), None
        if isinstance(w, Odd):
            src, want = w.program()
        else:
            src, want = program(w)
        cpp = os.path.join(sd, 'main.cpp')
        with open(cpp, 'w') as f:
            f.write(src)
        ok, err = build.compile_one(cpp, cpp[:-4] + '.o', ['-O0', '-DVF_OPS=""', '-I' + sd] + build.SAN)
        if not ok:
            return 'c++', '\n'.join(l for l in err.split('\n') if 'error' in l)[:1500], want
        exe = build.link([cpp[:-4] + '.o'] + objs, os.path.join(sd, 'driver'), build.SAN)
        e = {k: v % os.path.join(sd, 'san') for k, v in drv.SANENV.items()}
        try:
            r = build.sh([exe], timeout=120, env=e)
        except build.subprocess.TimeoutExpired:
            return 'hang', '', want
        rep = ''
        for x in sorted(os.listdir(sd)):
            if x.startswith('san'):
                with open(os.path.join(sd, x), errors='replace') as f:
                    rep += f.read()
        os.remove(exe)
        return ('ran' if r.returncode == 0 else 'crash'), r.stdout.decode('latin1'), (want, drv.summarize(rep + r.stderr.decode(errors='replace')) if r.returncode else '')
    for (w, r) in zip(work, build.parallel([lambda k=k, w=w: one(k, w) for k, w in enumerate(work)])):
        stage, got, want = r
        odd = isinstance(w, Odd)
        rep = {'files': w.files, 'stage': stage}

        def v(key, what):
            chk.violation('values:' + key, '%s; schema: %s' % (what, wire.cut('\n'.join(w.files), 1500)), rep)
        chk.case(nontrivial=w.files[0])
        if odd:
            chk.event('unusual notations tried')
            if stage == 'refused':
                chk.event('unusual notations refused')
                if not got.strip():
                    v('odd:silent', 'refused without a message: ' + w.label)
                continue
            if stage == 'c++':
                v('odd:%s:c++' % w.label, 'accepted, but the generated code is not valid: ' + got)
                continue
            if w.want is None:
                v('odd:%s:accepted' % w.label, 'accepted although the value cannot be represented')
                continue
            chk.event('unusual notations accepted')
        elif stage in ('refused', 'c++'):
            from lib.checks.schema_checks import normal
            v(stage + ':' + normal(got), 'values %s: %s' % (stage, got[:600]))
            continue
        if stage == 'hang':
            v('hang', 'reading the generated constants does not end')
            continue
        want, why = want
        lines = got.split('\n')
        if stage == 'crash':
            v('crash:' + normal_crash(why), 'reading the generated constants crashed after %r: %s' % (lines[-2:-1], why))
        for i, x in enumerate(want):
            g = lines[i] if i < len(lines) - 1 else None
            if g is None:
                if stage != 'crash':
                    v('missing', 'no observation for ' + x)
                break
            chk.case(nontrivial=(x, w.files[0]))
            chk.event('observations: ' + (w.label if odd else ' '.join(x.split(' ')[:-2]) or 'value'))
            if g != x:
                wh = ' '.join(x.split(' ')[:-1])
                v('%s:%s' % ('odd' if odd else x.split(' ')[0], w.label if odd else x.split(' ')[-1].lstrip('dx')[:1]), 'expected %r, got %r' % (wire.cut(x), wire.cut(g)))
                if wh != ' '.join(g.split(' ')[:-1]):
                    break
        else:
            if stage == 'ran' and len(lines) - 1 > len(want):
                v('extra', 'unexpected output %r' % lines[len(want)])
    components(chk)
    for g in work[:4]:
        chk.sample(' '.join(g.files[0].split())[:500])
    chk.minimum = 1 if chk.replaying is not None else 100


def normal_crash(why):
    import re
    return re.sub('[^A-Za-z]+', '-', why.split(' at ')[0])[:60].strip('-')
