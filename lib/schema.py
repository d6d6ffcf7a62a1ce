"""ASN.1 schemas: abstract syntax, text, tag resolution by the rules of X.680 (giving lib.model types), random schemas."""
from lib import model
from lib.ber import UNIV, APPL, CTX, PRIV
from lib.model import M, W, natural_tag

CLSNAME = {UNIV: 'UNIVERSAL', APPL: 'APPLICATION', CTX: None, PRIV: 'PRIVATE'}
STRNAME = {'OctetString': 'OCTET STRING', 'BitString': 'BIT STRING', 'CharacterString': 'CHARACTER STRING'}
LEAF = {'bool': 'BOOLEAN', 'int': 'INTEGER', 'null': 'NULL', 'real': 'REAL', 'oid': 'OBJECT IDENTIFIER'}


class Ty:
    """kind: bool int null real oid | time str (sub) | enum (items: [(name, number or None)]) | seq set (comps, ext) |
    seqof setof (elem, elname) | choice (comps, ext) | ref (name, mod) | tag (cls, num, mode, inner)"""

    def __init__(self, kind, **kw):
        self.kind = kind
        self.sub = self.items = self.comps = self.elem = self.elname = self.name = self.mod = None
        self.cls = self.num = self.mode = self.inner = None
        self.ext = None     # None, or the number of components before the "..."
        self.ext2 = None    # None, or the number of components before the second "..."
        self.field = None   # (object class, field) which the type is written as
        self.deco = ''      # constraint or named numbers, with no effect on the wire
        self.__dict__.update(kw)


class Comp:
    def __init__(self, name, ty, opt=None, dtext=None, dvalue=None):
        self.name, self.ty, self.opt, self.dtext, self.dvalue = name, ty, opt, dtext, dvalue
        self.of = None      # name of the type whose COMPONENTS OF gave this component


class Value:
    """value assignment: name Type ::= text; cpp/expect are used by C21"""

    def __init__(self, name, ty, text, expect=None):
        self.name, self.ty, self.text, self.expect = name, ty, text, expect


class Module:
    def __init__(self, name, tagging='EXPLICIT'):
        self.name, self.tagging = name, tagging
        self.types = []     # [(name, Ty)]
        self.values = []    # [Value]
        self.imports = []   # [(module name, [names])]
        self.order = None   # permutation of types + values for the text

    def cpp(self):
        return self.name.replace('-', '_')


# ---------------------------------------------------------------- text
class Style:
    def sp(self):
        return ' '

    def nl(self, ind=1):
        return '\n' + '    ' * ind

    def opt(self):
        """where no space is needed"""
        return ''


class WildStyle(Style):
    """the same tokens with other white space and comments"""

    def __init__(self, rng):
        self.rng = rng

    def sp(self):
        r = self.rng.random()
        if r < .5:
            return ' '
        return self.rng.choice(['  ', '\t', '\n', '\n\n  ', ' \t ', ' -- note\n', ' -- note -- ', '\n-- a comment, { } ::= [0]\n', ' /* block\n comment */ ', '\r\n'])

    def nl(self, ind=1):
        return self.sp()

    def opt(self):
        return '' if self.rng.random() < .6 else self.sp()


PLAIN = Style()


def comp_text(c, st, choice=False):
    s = c.name + st.sp() + text(c.ty, st)
    if c.opt == 'opt':
        s += st.sp() + 'OPTIONAL'
    elif c.opt == 'def':
        s += st.sp() + 'DEFAULT' + st.sp() + c.dtext
    return s


def text(t, st=PLAIN):
    k = t.kind
    if t.field:
        return '.'.join(t.field)
    if k in LEAF:
        return LEAF[k].replace(' ', st.sp()) + t.deco
    if k == 'str':
        return STRNAME.get(t.sub, t.sub).replace(' ', st.sp()) + t.deco
    if k == 'time':
        return t.sub or 'GeneralizedTime'
    if k == 'enum':
        its = [n if v is None else '%s%s(%s%d%s)' % (n, st.opt(), st.opt(), v, st.opt()) for n, v in t.items]
        if t.ext is not None:
            its.insert(t.ext, '...')
        return 'ENUMERATED' + st.sp() + '{' + st.opt() + (',' + st.sp()).join(its) + st.opt() + '}'
    if k in ('seq', 'set', 'choice'):
        its, last = [], None
        for i, c in enumerate(t.comps):
            if i == t.ext:
                its.append('...')
            if i == t.ext2:
                its.append('...')
                last = None
            if c.of is None:
                its.append(comp_text(c, st))
            elif c.of != last:
                its.append('COMPONENTS' + st.sp() + 'OF' + st.sp() + c.of)
            last = c.of
        if t.ext == len(t.comps):
            its.append('...')
        if t.ext2 == len(t.comps):
            its.append('...')
        return {'seq': 'SEQUENCE', 'set': 'SET', 'choice': 'CHOICE'}[k] + st.sp() + '{' + st.opt() + (',' + st.sp()).join(its) + st.opt() + '}'
    if k in ('seqof', 'setof'):
        return ('SEQUENCE' if k == 'seqof' else 'SET') + t.deco + st.sp() + 'OF' + st.sp() + (t.elname + st.sp() if t.elname else '') + text(t.elem, st)
    if k == 'ref':
        return (t.mod + '.' if t.mod else '') + t.name
    if k == 'tag':
        c = CLSNAME[t.cls]
        return '[' + st.opt() + (c + st.sp() if c else '') + str(t.num) + st.opt() + ']' + st.sp() + (t.mode + st.sp() if t.mode else '') + text(t.inner, st)
    raise ValueError(k)


def module_text(m, st=PLAIN):
    s = m.name + st.sp() + 'DEFINITIONS' + st.sp()
    if m.tagging:
        s += m.tagging + st.sp() + 'TAGS' + st.sp()
    s += '::=' + st.sp() + 'BEGIN' + st.nl(0)
    if m.imports:
        s += 'IMPORTS' + st.sp() + st.sp().join((',' + st.sp()).join(ns) + st.sp() + 'FROM' + st.sp() + mod for mod, ns in m.imports) + st.opt() + ';' + st.nl(0)
    items = [n + st.sp() + '::=' + st.sp() + text(t, st) for n, t in m.types] + \
            [v.name + st.sp() + text(v.ty, st) + st.sp() + '::=' + st.sp() + v.text for v in m.values]
    for i in m.order or range(len(items)):
        s += items[i] + st.nl(0)
    return s + 'END\n'


# ---------------------------------------------------------------- resolution
def is_tagged(t):
    return t.kind == 'tag'


def automatic(m, comps):
    """X.680 25.3, 27.3, 29.2"""
    return m.tagging == 'AUTOMATIC' and not any(is_tagged(c.ty) and not c.of for c in comps)


class Resolver:
    def __init__(self, modules):
        self.mods = {m.name: m for m in modules}
        self.cache = {}
        self.fix = []

    def find(self, t, m):
        """reference -> (Ty, module it is defined in)"""
        if t.mod:
            m = self.mods[t.mod]
        for n, x in m.types:
            if n == t.name:
                return x, m
        for mod, names in m.imports:
            if t.name in names:
                return self.find(Ty('ref', name=t.name), self.mods[mod])
        raise KeyError(t.name)

    def base(self, t, m):
        while t.kind in ('ref', 'tag'):
            if t.kind == 'ref':
                t, m = self.find(t, m)
            else:
                t = t.inner
        return t, m

    def tags(self, t, m):
        """complete tag list; [] for an untagged CHOICE"""
        if t.kind == 'ref':
            return self.tags(*self.find(t, m))
        if t.kind == 'choice':
            return []
        if t.kind == 'tag':
            return self.tagged((t.cls, t.num), t.mode, t.inner, m)
        return [natural_tag(t.kind, t.sub)]

    def tagged(self, tag, mode, inner, m):
        i = self.tags(inner, m)
        explicit = mode == 'EXPLICIT' or (mode is None and m.tagging in (None, 'EXPLICIT'))
        return [tag] + (i if explicit or not i else i[1:])

    def comp_tags(self, t, i, m):
        """automatic tags count the components of the extension root, then the additions"""
        comps = t.comps
        if automatic(m, comps):
            a, b = (len(comps), len(comps)) if t.ext is None else (t.ext, len(comps) if t.ext2 is None else t.ext2)
            n = i if i < a else i - (b - a) if i >= b else i + (len(comps) - b)
            return self.tagged((CTX, n), None, comps[i].ty, m)
        return self.tags(comps[i].ty, m)

    def outer_of(self, t, m, seen=()):
        tg = self.tags(t, m)
        if tg:
            return {tg[0]}
        b, bm = self.base(t, m)
        if id(b) in seen:
            return set()
        return set().union(*[self.outer_comp(b, i, bm, seen + (id(b),)) for i in range(len(b.comps))])

    def outer_comp(self, t, i, m, seen=()):
        tg = self.comp_tags(t, i, m)
        return {tg[0]} if tg else self.outer_of(t.comps[i].ty, m, seen)

    def w(self, t, m, tags=None):
        w = self.build(t, m, self.tags(t, m) if tags is None else tags)
        while self.fix:
            x, proto = self.fix.pop()
            for a in ('members', 'alts', 'elem', 'ext', 'enum', 'sub', 'names'):
                setattr(x, a, getattr(proto, a))
        return w

    def build(self, t, m, tags):
        b, bm = self.base(t, m)
        proto = self.cache.get(id(b))
        if proto is None:
            proto = W(b.kind, tags)
            self.cache[id(b)] = proto
            proto.sub = b.sub
            if b.kind == 'enum':
                proto.enum = [v for _, v in enum_numbers(b)]
                proto.names = {v: n for n, v in enum_numbers(b)}
            elif b.kind in ('seq', 'set', 'choice'):
                ms = [M(c.name, self.build(c.ty, bm, self.comp_tags(b, i, bm)), c.opt, c.dvalue) for i, c in enumerate(b.comps)]
                if b.kind == 'choice':
                    proto.alts = ms
                else:
                    proto.members = ms
                proto.ext = b.ext is not None
            elif b.kind in ('seqof', 'setof'):
                proto.elem = self.build(b.elem, bm, self.tags(b.elem, bm))
        x = W(b.kind, tags)
        self.fix.append((x, proto))
        return x


def enum_numbers(t):
    """X.680 20.3-20.5: items without a number take the successive unused non-negative numbers"""
    root = t.items if t.ext is None else t.items[:t.ext]
    used = {v for _, v in root if v is not None}
    out, nxt = [], 0
    for n, v in root:
        if v is None:
            while nxt in used:
                nxt += 1
            v = nxt
            used.add(v)
        out.append((n, v))
    if t.ext is not None:
        for n, v in t.items[t.ext:]:
            # additions: greater than every number used so far
            if v is None:
                v = 0
                while v in used or (out and v <= max([x for _, x in out[t.ext:]], default=-1)):
                    v += 1
            used.add(v)
            out.append((n, v))
    return out


# ---------------------------------------------------------------- validity
def valid(modules):
    """X.680 distinctness of tags everywhere -> reason or None"""
    r = Resolver(modules)

    def walk(t, m):
        if t.kind == 'tag':
            return walk(t.inner, m)
        if t.kind in ('seqof', 'setof'):
            return walk(t.elem, m)
        if t.kind in ('seq', 'set', 'choice'):
            outs = [r.outer_comp(t, i, m) for i in range(len(t.comps))]
            if t.kind == 'seq':
                run = set()
                for c, o in zip(t.comps, outs):
                    if run & o:
                        return 'ambiguous SEQUENCE'
                    run = run | o if c.opt else set()
            else:
                seen = set()
                for o in outs:
                    if seen & o:
                        return 'duplicate tag in ' + t.kind
                    seen |= o
            if len({c.name for c in t.comps}) != len(t.comps):
                return 'duplicate name'
            for c in t.comps:
                e = walk(c.ty, m)
                if e:
                    return e
        return None
    for m in modules:
        for n, t in m.types:
            e = walk(t, m)
            if e:
                return e
    return None


# ---------------------------------------------------------------- random schemas
STRS = ['OctetString', 'OctetString', 'BitString', 'UTF8String', 'NumericString', 'PrintableString', 'VideotexString', 'IA5String', 'GraphicString',
        'VisibleString', 'GeneralString', 'UniversalString', 'BMPString', 'TeletexString',
        'T61String', 'ISO646String']


ODD_NAMES = ['class', 'int', 'namespace', 'template', 'while', 'new', 'delete', 'operator', 'union', 'struct', 'default', 'this', 'float', 'double', 'char',
             'private', 'virtual', 'register', 'typename', 'and', 'or', 'not', 'xor', 'bool', 'true', 'false', 'auto', 'const', 'static', 'switch', 'using',
             'content', 'output', 'input', 'iterator', 'end', 'res', 'content-length', 'header-length-guess', 'decode-counts', 'first', 'os', 'object', 'lhs', 'rhs', 'e',
             'i', 't', 'args', 'value', 'type', 'id', 'size', 'begin', 'length', 'buffer', 'std', 'absl', 'integer', 'boolean', 'sequence', 'a', 'b']


class Gen:
    def __init__(self, rng, name, tagging, others=(), opts=None):
        self.rng, self.m, self.others = rng, Module(name, tagging), list(others)
        self.o = dict(tag=.3, auto_textual=.2, dflt=.15, opt=.3, ext=.3, ref=.25, depth=3, enumref_default=True, maxtags=2, names='plain', deco=.2, max_comps=7)
        self.o.update(opts or {})
        self.n = 0
        self.used = set()
        self.budget = self.o.setdefault('budget', {'choice': 6})  # the generated code for CHOICEs is slow to compile
        self.weights = {}

    def weight(self, t, m):
        """number of leaves after expanding references"""
        if t.kind == 'tag':
            return self.weight(t.inner, m)
        if t.kind == 'ref':
            t, m = self.r().find(t, m)
            if id(t) not in self.weights:
                self.weights[id(t)] = 1
                self.weights[id(t)] = self.weight(t, m)
            return self.weights[id(t)]
        if t.kind in ('seqof', 'setof'):
            return 2 * self.weight(t.elem, m)
        if t.kind in ('seq', 'set', 'choice'):
            return 1 + sum(self.weight(c.ty, m) for c in t.comps)
        return 1

    def mods(self):
        return [self.m] + self.others

    def r(self):
        return Resolver(self.mods())

    def leaf(self):
        rng = self.rng
        k = rng.choice(['bool', 'int', 'int', 'null', 'real', 'oid', 'str', 'str', 'str', 'time', 'enum'])
        if k == 'str':
            t = Ty('str', sub=rng.choice(STRS))
            if rng.random() < self.o['deco']:
                t.deco = rng.choice([' (SIZE (0..MAX))', ' (SIZE(0..65536))'])
            return t
        if k == 'enum':
            return self.enum()
        if k == 'time':
            return Ty('time', sub=rng.choice([None, None, 'UTCTime']) if self.o.get('utctime') else None)
        t = Ty(k)
        if k == 'int' and rng.random() < self.o['deco']:
            t.deco = rng.choice([' (MIN..MAX)', ' {one(1), two(2)}', ' (-9223372036854775808..9223372036854775807)'])
        return t

    def enum(self):
        rng = self.rng
        n = rng.randint(1, 6)
        names = ['v%s%d' % (rng.choice('abcxyz'), i) for i in range(n)]
        if rng.random() < .5:
            nums = [None] * n
        else:
            nums = rng.sample([-2147483648, -40000, -129, -128, -1, 0, 1, 2, 3, 7, 100, 127, 128, 255, 256, 32767, 32768, 70000, 2147483647], n)
            if rng.random() < .3:
                nums = sorted(nums)
                nums = [v if rng.random() < .5 else None for v in nums]
        t = Ty('enum', items=list(zip(names, nums)))
        if rng.random() < .2:
            t.ext = rng.randint(1, n)
            ns = [v for _, v in enum_numbers(t)]
            if len(set(ns)) != len(ns):
                t.ext = n
        return t

    def ident(self):
        self.n += 1
        if self.rng.random() < self.o.get('oddnames', .1):
            # C++ keywords, names the generated code uses itself
            x = self.rng.choice(ODD_NAMES)
            if x not in self.used:
                self.used.add(x)
                return x
        return '%s%d' % (self.rng.choice(['f', 'alpha', 'beta', 'gamma-x', 'm', 'theField', 'x-y-z']), self.n)

    def pick_ref(self):
        """reference to a type that exists already, here or in another module"""
        rng = self.rng
        c = [(None, n) for n, _ in self.m.types]
        for o in self.others:
            c += [(o.name, n) for n, _ in o.types]
        if not c:
            return None
        mod, n = rng.choice(c)
        if self.weight(Ty('ref', name=n, mod=mod), self.m) > 40:
            return None
        if mod:
            if rng.random() < .5 and not any(n == x for x, _ in self.m.types):
                for i in self.m.imports:
                    if n in i[1] and i[0] != mod:
                        return Ty('ref', name=n, mod=mod)
                for i in self.m.imports:
                    if i[0] == mod:
                        if n not in i[1]:
                            i[1].append(n)
                        break
                else:
                    self.m.imports.append((mod, [n]))
                return Ty('ref', name=n)
            return Ty('ref', name=n, mod=mod)
        return Ty('ref', name=n)

    def free_tag(self, used):
        rng = self.rng
        for _ in range(100):
            c = rng.choice([CTX, CTX, CTX, CTX, APPL, PRIV])
            n = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 15, 29, 30, 31, 32, 100, 127, 128, 255, 1000, 16383, 16384, 2097152])
            if (c, n) not in used:
                return c, n
        raise RuntimeError('no free tag')

    def ntags(self, t):
        return len(self.r().tags(t, self.m))

    def tagwrap(self, t, used=()):
        """t with a tag not in used, keeping the number of tags small"""
        rng = self.rng
        for _ in range(60):
            c, n = self.free_tag(used)
            x = Ty('tag', cls=c, num=n, mode=rng.choice([None, None, 'IMPLICIT', 'EXPLICIT']), inner=t)
            b, _ = self.r().base(t, self.m)
            if x.mode == 'IMPLICIT' and b.kind == 'choice' and not self.r().tags(t, self.m):
                continue  # not allowed
            if self.ntags(x) <= (self.o['maxtags'] if b.kind != 'choice' else self.o.get('maxchoicetags', 2)):
                return x
        return None

    def type(self, depth):
        rng = self.rng
        r = rng.random()
        if r < self.o['ref']:
            t = self.pick_ref() or self.leaf()
        elif depth <= 0 or r < .62:
            t = self.leaf()
        elif r < .72:
            t = self.collection('seq', depth - 1)
        elif r < .78:
            t = self.collection('set', depth - 1)
        elif r < .86:
            t = self.choice(depth - 1)
        else:
            t = self.of(depth - 1)
        if rng.random() < self.o['tag'] * .5:
            t = self.tagwrap(t) or t
        return t

    def of(self, depth):
        rng = self.rng
        t = Ty(rng.choice(['seqof', 'seqof', 'setof']), elem=self.type(depth))
        if rng.random() < .2:
            t.elname = self.ident()
        if rng.random() < .2:
            t.deco = rng.choice([' (SIZE (0..MAX))', ' SIZE (0..1000)'])
        return t

    def default_for(self, t):
        """(text, value) or None"""
        rng = self.rng
        b, bm = self.r().base(t, self.m)
        k = b.kind
        if k == 'bool':
            v = rng.random() < .5
            return ('TRUE' if v else 'FALSE'), v
        if k == 'int':
            v = rng.choice([0, 1, 5, -1, 127, 128, -128, -129, 65536, 2147483647, -2147483648, 2**40, 2**62])
            return str(v), v
        if k == 'enum' and (t.kind == 'enum' or self.o['enumref_default']):
            n, v = rng.choice(enum_numbers(b))
            return n, v
        if k == 'str' and b.sub not in ('BitString', 'OctetString'):
            s = ''.join(rng.choice('abcXYZ 0189.,') for _ in range(rng.choice([0, 1, 3, 10])))
            return '"%s"' % s, s.encode()
        return None

    def components(self, kind, depth, n):
        """n components that satisfy the tag rules of a seq, set or choice"""
        rng = self.rng
        m = self.m
        comps = []
        textual = m.tagging != 'AUTOMATIC' or rng.random() < self.o['auto_textual']
        run, allt = set(), set()
        for i in range(n):
            c = Comp(self.ident(), self.type(depth))
            if m.tagging == 'AUTOMATIC' and not textual and is_tagged(c.ty):
                c.ty = c.ty.inner
                while is_tagged(c.ty):
                    c.ty = c.ty.inner
            if kind != 'choice':
                x = rng.random()
                if x < self.o['opt']:
                    c.opt = 'opt'
                elif x < self.o['opt'] + self.o['dflt']:
                    d = self.default_for(c.ty)
                    if d:
                        c.opt, (c.dtext, c.dvalue) = 'def', d
            if textual or m.tagging != 'AUTOMATIC':
                if textual and m.tagging == 'AUTOMATIC' and i == 0 and not is_tagged(c.ty):
                    c.ty = self.tagwrap(c.ty) or c.ty
                    if not is_tagged(c.ty):
                        return self.components(kind, depth, n)
                bad = run if kind == 'seq' else allt
                o = self.r().outer_of(c.ty, m)
                if (bad & o) or rng.random() < self.o['tag'] * .5:
                    base = c.ty
                    while base.kind == 'tag' and rng.random() < .8:
                        base = base.inner
                    x = self.tagwrap(base, bad)
                    if x is None:
                        x = self.tagwrap(Ty('int'), bad)
                        if c.opt == 'def':
                            c.opt = None
                    c.ty = x
                    o = self.r().outer_of(c.ty, m)
                    if bad & o:
                        continue
                allt |= o
                run = run | o if c.opt else set()
            else:
                # automatic tagging must be possible within the number of tags the compiler supports
                x = Ty('tag', cls=CTX, num=i, mode=None, inner=c.ty)
                b, _ = self.r().base(c.ty, m)
                if self.ntags(x) > (self.o['maxtags'] if b.kind != 'choice' else self.o.get('maxchoicetags', 2)):
                    c.ty = self.leaf()
                    if c.opt == 'def':
                        c.opt = None
            comps.append(c)
        return comps

    def collection(self, kind, depth):
        rng = self.rng
        n = rng.choice([0, 1, 2, 3, 3, 4, 5, 6, self.o['max_comps']])
        t = Ty(kind, comps=self.components(kind, depth, n))
        if rng.random() < self.o['ext']:
            t.ext = len(t.comps)
            # some trailing optional components become extension additions
            while t.ext > 0 and t.comps[t.ext - 1].opt and rng.random() < .5:
                t.ext -= 1
            if 0 < t.ext < len(t.comps) and rng.random() < .4:
                t.ext2 = len(t.comps)
            if rng.random() < .3:
                # additions between two root lists
                a = rng.randrange(len(t.comps) + 1)
                b = a
                while b < len(t.comps) and t.comps[b].opt:
                    b += 1
                if 0 < a < b < len(t.comps):
                    t.ext, t.ext2 = a, b
        return t

    def choice(self, depth):
        if self.budget['choice'] <= 0:
            return self.collection('seq', depth)
        self.budget['choice'] -= 1
        t = Ty('choice', comps=self.components('choice', depth, self.rng.choice([1, 2, 3, 4, 5])))
        if not t.comps:
            t.comps = [Comp(self.ident(), self.leaf() if self.m.tagging == 'AUTOMATIC' else Ty('int'))]
        if self.rng.random() < .2:
            t.ext = self.rng.randint(1, len(t.comps))
        return t

    def module(self, n):
        rng = self.rng
        for i in range(n):
            name = '%s%d%s' % (rng.choice(['T', 'Rec', 'Type-A', 'MyType', 'Alpha']), i, self.m.name[-1])
            r = rng.random()
            if r < .35:
                t = self.collection('seq', self.o['depth'])
            elif r < .5:
                t = self.collection('set', self.o['depth'])
            elif r < .65:
                t = self.choice(self.o['depth'])
            elif r < .8:
                t = self.of(self.o['depth'])
            else:
                t = self.type(self.o['depth'])
            if rng.random() < self.o['tag'] * .7:
                t = self.tagwrap(t) or t
            self.m.types.append((name, t))
        if rng.random() < self.o.get('recursive', .5):
            self.recursive()
        return self.m

    def recursive(self):
        rng = self.rng
        k = rng.randint(0, 5)
        auto = self.m.tagging == 'AUTOMATIC'

        def tg(n, t):
            return t if auto else Ty('tag', cls=CTX, num=n, mode=None, inner=t)
        if k == 0:
            self.m.types.append(('Rec-list' + self.m.name[-1], Ty('seq', comps=[Comp('head', Ty('int')), Comp('tail', tg(1, Ty('ref', name='Rec-list' + self.m.name[-1])), 'opt')])))
        elif k == 1:
            self.m.types.append(('Rec-tree' + self.m.name[-1], Ty(rng.choice(['seq', 'set']), comps=[Comp('left', tg(1, Ty('ref', name='Rec-tree' + self.m.name[-1])), 'opt'), Comp('label', tg(2, Ty('str', sub='OctetString'))),
                                                                   Comp('right', tg(3, Ty('ref', name='Rec-tree' + self.m.name[-1])), 'opt')])))
        elif k == 2:
            self.m.types.append(('Rec-expr' + self.m.name[-1], Ty('choice', comps=[Comp('leaf', tg(0, Ty('int'))), Comp('neg', tg(1, Ty('ref', name='Rec-expr' + self.m.name[-1]))),
                                                                   Comp('all', tg(2, Ty('seqof', elem=Ty('ref', name='Rec-expr' + self.m.name[-1]))))])))
        elif k == 3:
            # recursion through collections written in place
            name = 'Rec-nest' + self.m.name[-1]

            def inner(depth):
                cs = [Comp('less', tg(1, Ty('ref', name=name)), 'opt'), Comp('at', tg(2, Ty('int'))), Comp('more', tg(3, Ty('ref', name=name)), 'opt')]
                if depth:
                    cs.append(Comp('deep', tg(4, inner(depth - 1)), rng.choice([None, 'opt'])))
                rng.shuffle(cs)
                return Ty(rng.choice(['seq', 'set']), comps=cs)
            self.m.types.append((name, Ty(rng.choice(['seq', 'set']), comps=[Comp('here', tg(0, inner(rng.randint(0, 2))), rng.choice([None, 'opt'])), Comp('kids', tg(1, Ty(rng.choice(['seqof', 'setof']), elem=inner(0))))])))
        else:
            self.m.types.append(('Rec-dir' + self.m.name[-1], Ty('seq', comps=[Comp('name', tg(0, Ty('str', sub='UTF8String'))), Comp('sub', tg(1, Ty('ref', name='Rec-dirs' + self.m.name[-1])), 'opt')])))
            self.m.types.append(('Rec-dirs' + self.m.name[-1], Ty('seqof', elem=Ty('ref', name='Rec-dir' + self.m.name[-1]))))


def random_schema(rng, idx, opts=None):
    """-> list of modules (one to three) with unique names"""
    mods = []
    opts = dict(opts or {}, budget={'choice': 6})
    for i in range(rng.choice([1, 1, 2, 3])):
        g = Gen(rng, 'Mod%s%s' % (idx, 'ABC'[i]), rng.choice([None, 'EXPLICIT', 'IMPLICIT', 'IMPLICIT', 'AUTOMATIC', 'AUTOMATIC'] if not opts.get('taggings') else opts['taggings']), mods, opts)
        mods.append(g.module(rng.randint(2, 5)))
    return mods


# ---------------------------------------------------------------- systematic schemas
def systematic():
    """Each kind of type in each position, in each tagging environment: list of module lists"""
    out = []

    def leaves():
        ls = [('b', Ty('bool')), ('i', Ty('int')), ('n', Ty('null')), ('r', Ty('real')), ('o', Ty('oid')), ('t', Ty('time')),
              ('e', Ty('enum', items=[('red', None), ('blue', None)])), ('e2', Ty('enum', items=[('low', -70000), ('mid', None), ('high', 70000)]))]
        return ls + [('s%d' % i, Ty('str', sub=x)) for i, x in enumerate(dict.fromkeys(STRS))]

    for k, env in enumerate([None, 'EXPLICIT', 'IMPLICIT', 'AUTOMATIC']):
        auto = env == 'AUTOMATIC'
        m = Module('Sys%dA' % k, env)

        def tg(n, t, mode=None, cls=CTX):
            return t if auto else Ty('tag', cls=cls, num=n, mode=mode, inner=t)

        def ref(n):
            return Ty('ref', name=n)
        ls = leaves()
        m.types.append(('Inner', Ty('seq', comps=[Comp('a', Ty('int'))])))
        m.types.append(('Pick', Ty('choice', comps=[Comp('p', tg(0, Ty('int'))), Comp('q', tg(1, Ty('null')))])))
        m.types.append(('Nums', Ty('seqof', elem=Ty('int'))))
        m.types.append(('Flag', Ty('tag', cls=APPL, num=3, mode='IMPLICIT', inner=Ty('bool'))))
        m.types.append(('Colour', Ty('enum', items=[('red', 1), ('green', None), ('blue', 3)])))
        m.types.append(('OneOfEach', Ty('seq', comps=[Comp(n, tg(i, t)) for i, (n, t) in enumerate(ls)])))
        m.types.append(('SomeOfEach', Ty('set', comps=[Comp(n, tg(i + 20, t), 'opt') for i, (n, t) in enumerate(ls)], ext=len(ls))))
        m.types.append(('AnyOfEach', Ty('choice', comps=[Comp(n, tg(i, t, 'IMPLICIT', PRIV)) for i, (n, t) in enumerate(ls)])))
        m.types.append(('Grown', Ty('seq', comps=[Comp('a', tg(0, Ty('int'))), Comp('b', tg(1, Ty('bool'))), Comp('c', tg(2, Ty('int')), 'opt'), Comp('d', tg(3, Ty('null')), 'opt'), Comp('e', tg(4, Ty('int')))], ext=2, ext2=4)))
        m.types.append(('GrownSet', Ty('set', comps=[Comp('a', tg(0, Ty('int'))), Comp('b', tg(1, Ty('int')), 'opt')], ext=1, ext2=2)))
        m.types.append(('GrownChoice', Ty('choice', comps=[Comp('a', tg(0, Ty('int'))), Comp('b', tg(1, Ty('bool'))), Comp('c', tg(2, Ty('int')))], ext=1)))
        m.types.append(('Lists', Ty('seq', comps=[Comp(n, tg(i, Ty('seqof' if i % 2 else 'setof', elem=t))) for i, (n, t) in enumerate(ls[:8])])))
        dfl = [('b', Ty('bool'), 'TRUE', True), ('c', Ty('bool'), 'FALSE', False), ('i', Ty('int'), '-129', -129), ('j', Ty('int'), '0', 0), ('e', ref('Colour'), 'green', 0),
               ('s', Ty('str', sub='UTF8String'), '"abc"', b'abc'), ('z', Ty('str', sub='IA5String'), '""', b'')]
        m.types.append(('Defaults', Ty('seq', comps=[Comp(n, tg(i, t), 'def', x, v) for i, (n, t, x, v) in enumerate(dfl)])))
        m.types.append(('DefaultSet', Ty('set', comps=[Comp(n, tg(i, t, 'EXPLICIT'), 'def', x, v) for i, (n, t, x, v) in enumerate(dfl)] + [Comp('last', tg(9, Ty('int')))])))
        refs = [('in', 'Inner'), ('pk', 'Pick'), ('nu', 'Nums'), ('fl', 'Flag'), ('co', 'Colour')]
        m.types.append(('Refs', Ty('seq', comps=[Comp(n + x, tg(3 * i + j, ref(r), md), 'opt' if j == 2 else None)
                                                 for i, (n, r) in enumerate(refs) for j, (x, md) in enumerate([('e', 'EXPLICIT'), ('i', None if r == 'Pick' else 'IMPLICIT'), ('d', None)])])))
        m.types.append(('RefLists', Ty('seq', comps=[Comp(n, tg(i, Ty('seqof', elem=ref(r)))) for i, (n, r) in enumerate(refs)])))
        m.types.append(('Retag', Ty('tag', cls=PRIV, num=31, mode=None, inner=ref('Inner'))))
        m.types.append(('RetagPick', Ty('tag', cls=PRIV, num=128, mode=None, inner=ref('Pick'))))
        m.types.append(('Alias', ref('RetagPick')))
        m.types.append(('AliasList', Ty('setof', elem=ref('Alias'))))
        n = Module('Sys%dB' % k, env)
        n.imports = [(m.name, ['Inner', 'Alias', 'Colour'])]
        n.types.append(('Far', Ty('seq', comps=[Comp('x', tg(0, ref('Inner'))), Comp('y', tg(1, ref('Alias')), 'opt'), Comp('z', tg(2, Ty('ref', name='Flag', mod=m.name)), 'opt'),
                                               Comp('c', tg(3, ref('Colour')), 'def', 'blue', 3), Comp('w', tg(4, Ty('ref', name='Defaults', mod=m.name)))])))
        n.types.append(('FarSet', Ty('set', comps=[Comp('x', tg(0, ref('Far'))), Comp('y', tg(1, Ty('set', comps=[Comp('q', tg(0, Ty('ref', name='Pick', mod=m.name)))])))])))
        n.types.append(('Listing', Ty('seq', comps=[Comp('head', tg(0, Ty('int'))), Comp('tail', tg(1, ref('Listing')), 'opt')])))
        n.types.append(('Expr', Ty('choice', comps=[Comp('leaf', tg(0, Ty('int'))), Comp('neg', tg(1, ref('Expr'))), Comp('all', tg(2, Ty('setof', elem=ref('Expr'))))])))
        # recursion through named and anonymous collections and alternatives
        n.types.append(('Tree', Ty('seq', comps=[Comp('v', tg(0, Ty('int'))), Comp('kids', tg(1, Ty('seqof', elem=ref('Tree'))))])))
        n.types.append(('Forest', Ty('set', comps=[Comp('v', tg(0, Ty('int')), 'opt'), Comp('trees', tg(1, ref('Forests')), 'opt'), Comp('pick', tg(2, Ty('choice', comps=[Comp('none', tg(0, Ty('null'))), Comp('one', tg(1, ref('Forest')))])), 'opt')])))
        n.types.append(('Forests', Ty('setof', elem=ref('Forest'))))
        n.types.append(('Nest', Ty('seq', comps=[Comp('v', tg(0, Ty('int'))), Comp('in', tg(1, Ty('set', comps=[Comp('l', tg(0, ref('Nest')), 'opt'), Comp('x', tg(1, Ty('seq', comps=[Comp('r', tg(1, ref('Nest')), 'opt')])), 'opt')]))),
                                                Comp('of', tg(2, Ty('seqof', elem=Ty('seq', comps=[Comp('s', tg(0, ref('Nest')), 'opt')]))))])))
        out.append([m, n])
    return out
