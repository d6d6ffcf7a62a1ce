"""Reference model of ASN.1 values on the wire: resolved types (W), values, canonical encoder, variant encoder, decoder.

A resolved type carries its complete tag list, outermost first. Values:
  bool -> bool; int, enum -> int; null -> None; real -> 64-bit pattern; str -> bytes; oid -> tuple;
  time -> ('z', seconds) | ('o', seconds, minutes) | ('t', text bytes)
  seq, set -> list with one entry per member (ABSENT for an absent OPTIONAL; a DEFAULT member always has its value)
  seqof, setof -> list; choice -> (index, value)
"""
from lib import ber
from lib.ber import UNIV, APPL, CTX, PRIV

ABSENT = type('Absent', (), {'__repr__': lambda s: 'ABSENT'})()

UTAG = dict(bool=1, int=2, null=5, oid=6, real=9, enum=10, seq=16, set=17, seqof=16, setof=17)
STRTAG = {'BitString': 3, 'OctetString': 4, 'UTF8String': 12, 'NumericString': 18, 'PrintableString': 19,
          'TeletexString': 20, 'VideotexString': 21, 'IA5String': 22, 'GraphicString': 25,
          'VisibleString': 26, 'GeneralString': 27, 'UniversalString': 28, 'CharacterString': 29, 'BMPString': 30,
          'T61String': 20, 'ISO646String': 26}


class M:
    """component of a seq/set or alternative of a choice"""

    def __init__(self, name, w, opt=None, default=None):
        self.name, self.w, self.opt, self.default = name, w, opt, default  # opt: None | 'opt' | 'def'


class W:
    def __init__(self, kind, tags=None, members=None, elem=None, ext=False, enum=None, sub=None, alts=None):
        self.kind, self.members, self.elem, self.ext, self.enum, self.sub = kind, members, elem, ext, enum, sub
        self.alts = alts
        self.tags = tags
        self.names = None  # of the values of an enum
        self.pick = None  # alternatives worth generating, when not all

    def outer(self, seen=()):
        """set of identifiers an encoding of this type can start with"""
        if self.tags:
            return {self.tags[0]}
        assert self.kind == 'choice'
        s = set()
        if self in seen:
            return s
        for m in self.alts:
            s |= m.w.outer(seen + (self,))
        return s

    def constructed(self):
        return self.kind in ('seq', 'set', 'seqof', 'setof')


def natural_tag(kind, sub=None):
    if kind == 'str':
        return (UNIV, STRTAG[sub])
    if kind == 'time':
        return (UNIV, 24 if sub != 'UTCTime' else 23)
    return (UNIV, UTAG[kind])


# ---------------------------------------------------------------- time
MINSEC, MAXSEC = -62167219200, 253402300799  # years 0000 .. 9999


def civil(secs):
    """proleptic Gregorian (year, month, day, hour, minute, second) of unix seconds"""
    days, r = divmod(secs, 86400)
    z = days + 719468
    era, doe = divmod(z, 146097)
    yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
    mp = (5 * doy + 2) // 153
    d, m = doy - (153 * mp + 2) // 5 + 1, mp + 3 if mp < 10 else mp - 9
    return yoe + era * 400 + (m <= 2), m, d, r // 3600, r // 60 % 60, r % 60


def unix(y, mo, d, h=0, mi=0, s=0):
    """inverse of civil; None when the date does not exist"""
    if not (1 <= mo <= 12 and 1 <= d and 0 <= h < 24 and 0 <= mi < 60 and 0 <= s < 60):
        return None
    leap = y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
    if d > [31, 29 if leap else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][mo - 1]:
        return None
    yy = y - (mo <= 2)
    era, yoe = divmod(yy, 400)
    doy = (153 * (mo + (-3 if mo > 2 else 9)) + 2) // 5 + d - 1
    doe = yoe * 365 + yoe // 4 - yoe // 100 + doy
    return (era * 146097 + doe - 719468) * 86400 + h * 3600 + mi * 60 + s


def civil_text(secs):
    return '%04d%02d%02d%02d%02d%02d' % civil(secs)


def offset_text(off):
    return '%s%02d%02d' % ('+' if off >= 0 else '-', abs(off) // 60, abs(off) % 60)


def time_text(v):
    """what this library stores. An instant with an offset is stored as the UTC text followed by the offset; that this
    is not what X.680 says is a known finding of C11, which judges it separately."""
    if v[0] == 't':
        return v[1]
    s = civil_text(v[1])
    return (s + ('Z' if v[0] == 'z' else offset_text(v[2]))).encode()


# ---------------------------------------------------------------- values as text
def text(w, v, dumped=False):
    """neutral text. dumped=False: as the driver's vf_build reads it; True: as vf_dump is expected to print it."""
    k = w.kind
    if k == 'bool':
        return 'T' if v else 'F'
    if k == 'int':
        return 'i%d;' % v
    if k == 'enum':
        return 'e%d;' % v
    if k == 'null':
        return 'n'
    if k == 'real':
        return 'r%016x;' % (ber.real_canon(v) if dumped else v)
    if k == 'str':
        return 's%d:%s' % (len(v), v.hex())
    if k == 'oid':
        return 'o' + '.'.join(map(str, v)) + ';'
    if k == 'time':
        if dumped:
            t = time_text(v)
            return 't%d:%s' % (len(t), t.hex())
        if v[0] == 'z':
            return 'gz%d;' % v[1]
        if v[0] == 'o':
            return 'go%d,%d;' % (v[1], v[2])
        raise ValueError('raw time text cannot be built')
    if k in ('seq', 'set'):
        return '{' + ''.join(member_text(m, x, dumped) for m, x in zip(w.members, v)) + '}'
    if k in ('seqof', 'setof'):
        return '[%d:' % len(v) + ''.join(text(w.elem, x, dumped) for x in v) + ']'
    if k == 'choice':
        return 'c%d:' % v[0] + text(w.alts[v[0]].w, v[1], dumped)
    raise ValueError(k)


def member_text(m, x, dumped):
    if m.opt == 'opt':
        return '-' if x is ABSENT else '+' + text(m.w, x, dumped)
    if m.opt == 'def':
        if dumped:
            return ('d' if equal(m.w, x, m.default) else 'x') + text(m.w, x, True)
        return '-' if equal(m.w, x, m.default) else '+' + text(m.w, x, False)
    return text(m.w, x, dumped)


class Parse:
    """vf_dump text -> value"""

    def __init__(self, s):
        self.s, self.p = s, 0

    def until(self, c):
        i = self.s.index(c, self.p)
        r = self.s[self.p:i]
        self.p = i + 1
        return r

    def get(self):
        c = self.s[self.p]
        self.p += 1
        return c

    def expect(self, c):
        g = self.get()
        if g != c:
            raise ValueError('expected %r got %r at %d in %s' % (c, g, self.p, self.s[:200]))

    def value(self, w):
        k = w.kind
        if k == 'bool':
            return self.get() == 'T'
        if k == 'int':
            self.expect('i')
            return int(self.until(';'))
        if k == 'enum':
            self.expect('e')
            return int(self.until(';'))
        if k == 'null':
            self.expect('n')
            return None
        if k == 'real':
            self.expect('r')
            return ber.real_canon(int(self.until(';'), 16))
        if k in ('str', 'time'):
            self.expect('s' if k == 'str' else 't')
            n = int(self.until(':'))
            b = bytes.fromhex(self.s[self.p:self.p + 2 * n])
            self.p += 2 * n
            if self.s[self.p:self.p + 1] == '!':
                raise ValueError('string accessors disagree')
            return b if k == 'str' else ('t', b)
        if k == 'oid':
            self.expect('o')
            t = self.until(';')
            return tuple(int(x) for x in t.split('.')) if t else ()
        if k in ('seq', 'set'):
            self.expect('{')
            r = []
            for m in w.members:
                if m.opt == 'opt':
                    r.append(self.value(m.w) if self.get() == '+' else ABSENT)
                elif m.opt == 'def':
                    self.get()
                    r.append(self.value(m.w))
                else:
                    r.append(self.value(m.w))
            self.expect('}')
            return r
        if k in ('seqof', 'setof'):
            self.expect('[')
            n = int(self.until(':'))
            r = [self.value(w.elem) for _ in range(n)]
            self.expect(']')
            return r
        if k == 'choice':
            self.expect('c')
            i = int(self.until(':'))
            return (i, self.value(w.alts[i].w))
        raise ValueError(k)


def parse_value(w, s):
    p = Parse(s)
    v = p.value(w)
    if p.p != len(s):
        raise ValueError('trailing dump text ' + s[p.p:p.p + 60])
    return v


def equal(w, a, b):
    if a is ABSENT or b is ABSENT:
        return a is b
    k = w.kind
    if k == 'real':
        return ber.real_canon(a) == ber.real_canon(b)
    if k == 'time':
        return time_text(a) == time_text(b)
    if k in ('seq', 'set'):
        return all(equal(m.w, x, y) for m, x, y in zip(w.members, a, b))
    if k in ('seqof', 'setof'):
        return len(a) == len(b) and all(equal(w.elem, x, y) for x, y in zip(a, b))
    if k == 'choice':
        return a[0] == b[0] and equal(w.alts[a[0]].w, a[1], b[1])
    return a == b


# ---------------------------------------------------------------- encoding
class Canon:
    """no freedom used"""

    def extra(self):
        return 0

    def order(self, n):
        return list(range(n))

    def send_default(self):
        return False

    def true(self):
        return 0xff

    def additions(self, w):
        return b''


class Variant(Canon):
    def __init__(self, rng, lengths=True, orders=True, defaults=True, ext=True):
        self.rng, self.l, self.o, self.d, self.e = rng, lengths, orders, defaults, ext

    def extra(self):
        return self.rng.choice([0, 0, 0, 1, 1, 2, 3, 4]) if self.l else 0

    def order(self, n):
        o = list(range(n))
        if self.o:
            self.rng.shuffle(o)
        return o

    def send_default(self):
        return self.d and self.rng.random() < .5

    def true(self):
        return self.rng.choice([0xff, 1, 0x80, self.rng.randint(1, 255)])

    def additions(self, w):
        if not self.e or self.rng.random() < .4:
            return b''
        used = set()
        for m in w.members:
            used |= m.w.outer()
        out = b''
        for _ in range(self.rng.randint(1, 3)):
            for _ in range(20):
                t = (self.rng.choice([APPL, CTX, PRIV, UNIV]), self.rng.choice([0, 1, 2, 3, 16, 17, 29, 30, 31, 100, 5000]))
                if t not in used and t != (0, 0):
                    break
            else:
                return out
            used.add(t)
            if self.rng.random() < .4:
                body = ber.tlv(CTX, 0, self.rng.randint(0, 40), bytes(self.rng.randint(0, 255) for _ in range(self.rng.randint(0, 5))))
                out += ber.tlv(t[0], 1, t[1], body, self.extra())
            else:
                out += ber.tlv(t[0], 0, t[1], bytes(self.rng.randint(0, 255) for _ in range(self.rng.randint(0, 9))), self.extra())
        return out


CANON = Canon()


def contents(w, v, f=CANON):
    k = w.kind
    if k == 'bool':
        return bytes([f.true() if v else 0])
    if k in ('int', 'enum'):
        return ber.enc_int(v)
    if k == 'null':
        return b''
    if k == 'real':
        return ber.enc_real_libform(v)
    if k == 'str':
        return v
    if k == 'oid':
        return ber.enc_oid(v)
    if k == 'time':
        return time_text(v)
    if k in ('seq', 'set'):
        parts = []
        for m, x in zip(w.members, v):
            if x is ABSENT:
                continue
            if m.opt == 'def' and equal(m.w, x, m.default) and not f.send_default():
                continue
            parts.append(encode(m.w, x, f))
        if k == 'set':
            parts = [parts[i] for i in f.order(len(parts))]
        add = f.additions(w) if w.ext else b''
        if k == 'set' and add:
            return add + b''.join(parts) if f.order(2)[0] else b''.join(parts) + add
        return b''.join(parts) + add
    if k in ('seqof', 'setof'):
        return b''.join(encode(w.elem, x, f) for x in v)
    raise ValueError(k)


def encode(w, v, f=CANON):
    if w.kind == 'choice':
        m = w.alts[v[0]]
        body = encode(m.w, v[1], f)
        for t in reversed(w.tags or []):
            body = ber.tlv(t[0], 1, t[1], body, f.extra())
        return body
    body = contents(w, v, f)
    con = w.constructed()
    for t in reversed(w.tags):
        body = ber.tlv(t[0], con, t[1], body, f.extra())
        con = True
    return body


def match(w, v, data):
    """data is a valid canonical-form encoding of v, where REAL contents may take any valid form. -> reason or None"""
    if data == encode(w, v):
        return None
    return _match(w, v, data)


def _tlv1(data, cls, con, num):
    t = ber.parse(data)
    if t is None or t.total != len(data):
        return None, 'not exactly one element: ' + data.hex()[:80]
    if (t.cls, bool(t.con), t.num) != (cls, bool(con), num):
        return None, 'identifier (%d,%d,%s) instead of (%d,%d,%d)' % (t.cls, t.con, t.num, cls, con, num)
    if data[:t.hlen] != ber.ident(cls, con, num) + ber.length(len(t.content)):
        return None, 'header octets not minimal: ' + data[:t.hlen].hex()
    return t.content, None


def _match(w, v, data):
    if w.kind == 'choice':
        body = data
        for t in w.tags or []:
            body, e = _tlv1(body, t[0], 1, t[1])
            if e:
                return e
        e = _match(w.alts[v[0]].w, v[1], body)
        return e and 'alternative %d: %s' % (v[0], e)
    body = data
    for i, t in enumerate(w.tags):
        body, e = _tlv1(body, t[0], w.constructed() or i < len(w.tags) - 1, t[1])
        if e:
            return e
    k = w.kind
    if k == 'real':
        got = ber.dec_real(body)
        if got is None:
            return 'invalid REAL contents ' + body.hex()
        return None if got == ber.real_canon(v) else 'REAL contents %s denote %016x not %016x' % (body.hex(), got, v)
    if k in ('seq', 'set', 'seqof', 'setof'):
        els, clean = ber.elements(body)
        if not clean:
            return 'malformed content'
        pos, want = 0, []
        if k in ('seq', 'set'):
            for m, x in zip(w.members, v):
                if x is not ABSENT and not (m.opt == 'def' and equal(m.w, x, m.default)):
                    want.append((m.w, x, m.name))
        else:
            want = [(w.elem, x, i) for i, x in enumerate(v)]
        if len(els) != len(want):
            return '%d elements instead of %d' % (len(els), len(want))
        for t, (mw, x, n) in zip(els, want):
            e = _match(mw, x, body[pos:pos + t.total])
            if e:
                return '%s: %s' % (n, e)
            pos += t.total
        return None
    exp = contents(w, v)
    return None if exp == body else '%s contents %s instead of %s' % (k, body.hex()[:200], exp.hex()[:200])


# ---------------------------------------------------------------- decoding
class Reject(Exception):
    pass


class Dec:
    """Reference decoder. .unspec collects reasons why the input, although decodable, is not a clear-cut valid encoding
    (the library may accept or refuse it; if it accepts, the value must still be the one decoded here, unless
    .novalue is set)."""

    def __init__(self):
        self.unspec = []
        self.novalue = False

    def top(self, w, data):
        t = ber.parse(data)
        if t is None:
            raise Reject('no complete element')
        return self.elem(w, t)

    def strip(self, w, t):
        """peel the explicit tags -> innermost TLV"""
        con = w.constructed()
        for i, tag in enumerate(w.tags):
            last = i == len(w.tags) - 1
            if (t.cls, t.num) != tag:
                raise Reject('tag (%s,%s) instead of %s' % (t.cls, t.num, tag))
            want = con if last and w.kind != 'choice' else True
            if bool(t.con) != want:
                raise Reject('wrong form')
            if last and w.kind != 'choice':
                return t
            inner = ber.parse(t.content)
            if inner is None:
                raise Reject('no complete element inside explicit tag')
            if inner.total != len(t.content):
                raise Reject('data after the element inside an explicit tag')
            t = inner
        return t

    def elem(self, w, t):
        k = w.kind
        if k == 'choice':
            if w.tags:
                t = self.strip(w, t)
            for i, m in enumerate(w.alts):
                if (t.cls, t.num) in m.w.outer():
                    return (i, self.elem(m.w, t))
            raise Reject('no alternative')
        t = self.strip(w, t)
        c = t.content
        if k == 'bool':
            if len(c) != 1:
                raise Reject('BOOLEAN length')
            return c[0] != 0
        if k in ('int', 'enum'):
            if len(c) == 0:
                raise Reject('empty INTEGER')
            v = ber.dec_int(c)
            if len(c) > 8:
                if ber.enc_int(v) == c:
                    raise Reject('INTEGER too wide')
                self.unspec.append('padded INTEGER')
                self.novalue = self.novalue or not -2**63 <= v < 2**63
            elif ber.enc_int(v) != c:
                self.unspec.append('padded INTEGER')
            if k == 'enum' and w.enum is not None and v not in w.enum:
                self.unspec.append('unknown enumeration value')
                if not -2**31 <= v < 2**31:
                    self.novalue = True
            return v
        if k == 'null':
            if c:
                raise Reject('NULL length')
            return None
        if k == 'real':
            r = ber.dec_real(c)
            if r is None:
                self.unspec.append('invalid REAL contents')
                self.novalue = True
                return 0
            if len(c) > 100:
                self.unspec.append('very long REAL')
            return r
        if k == 'str':
            if w.sub == 'BitString' and (not c or c[0] > 7 or (len(c) == 1 and c[0])):
                self.unspec.append('BIT STRING contents')
            return c
        if k == 'oid':
            r = ber.dec_oid(c)
            if r is None or any(x >= 2**63 for x in r):
                self.unspec.append('OBJECT IDENTIFIER contents')
                self.novalue = True
                return ()
            return r
        if k == 'time':
            import re
            if not re.fullmatch(rb'[0-9]{14}(Z|[+-][0-9]{4}|)', c):
                self.unspec.append('time text')
            return ('t', c)
        if k == 'seq':
            els, clean = ber.elements(c)
            i, out = 0, []
            for m in w.members:
                if i < len(els) and (els[i].cls, els[i].num) in m.w.outer():
                    out.append(self.elem(m.w, els[i]))
                    i += 1
                elif m.opt == 'opt':
                    out.append(ABSENT)
                elif m.opt == 'def':
                    out.append(m.default)
                else:
                    raise Reject('component %s missing' % m.name)
            if not clean:
                raise Reject('malformed tail')
            if i < len(els):
                # is it a known component in the wrong place?
                rest = els[i:]
                known = set()
                for m in w.members:
                    known |= m.w.outer()
                if not w.ext:
                    self.unspec.append('unknown trailing component, not extensible')
                elif any((e.cls, e.num) in known for e in rest):
                    self.unspec.append('extension addition with the tag of a component')
            return out
        if k == 'set':
            els, clean = ber.elements(c)
            out = [None] * len(w.members)
            have = [False] * len(w.members)
            for e in els:
                for j, m in enumerate(w.members):
                    if (e.cls, e.num) in m.w.outer():
                        if have[j]:
                            raise Reject('duplicate component')
                        have[j] = True
                        out[j] = self.elem(m.w, e)
                        break
                else:
                    if not w.ext:
                        raise Reject('unknown SET component')
            if not clean:
                raise Reject('malformed tail')
            for j, m in enumerate(w.members):
                if not have[j]:
                    if m.opt == 'opt':
                        out[j] = ABSENT
                    elif m.opt == 'def':
                        out[j] = m.default
                    else:
                        raise Reject('component %s missing' % m.name)
            return out
        if k in ('seqof', 'setof'):
            els, clean = ber.elements(c)
            out = [self.elem(w.elem, e) for e in els]
            if not clean:
                raise Reject('malformed tail')
            return out
        raise ValueError(k)


def decode(w, data):
    """-> ('accept', value) | ('reject', reason) | ('unspec', value or None)"""
    d = Dec()
    try:
        v = d.top(w, data)
    except Reject as e:
        return 'reject', str(e)
    if d.unspec:
        return 'unspec', (None if d.novalue else v)
    return 'accept', v
