"""Random values with emphasis on boundaries."""
from lib import ber, model
from lib.model import ABSENT

INTS = sorted({s * (1 << k) + d for k in range(0, 64) for s in (1, -1) for d in (-1, 0, 1) if -2**63 <= s * (1 << k) + d < 2**63} | {0, 5, 100, 1000})
STRLEN = [0, 1, 2, 3, 5, 8, 16, 90, 96, 97, 98, 99, 100, 101, 102, 110, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130,
          131, 132, 133, 250, 251, 252, 253, 254, 255, 256, 257, 258, 300, 1000]
BIGLEN = [65530, 65531, 65532, 65533, 65534, 65535, 65536, 65537, 65540]
PRINTABLE = b'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 \'()+,-./:=?'


def interesting_doubles():
    out = {0.0, -0.0, 1.0, -1.0, 0.1, 1e100, 1e300, 1e-300, 5e-324, 2.2250738585072014e-308, 2.225073858507201e-308,
           1.7976931348623157e308, float('inf'), float('-inf'), 3.14, 1 / 3., 2.0 ** 53, 2.0 ** 53 - 1, 2.0 ** 63, -2.0 ** 31}
    bits = {ber.double_bits(x) for x in out}
    bits.add(ber.NAN_BITS)
    for e in list(range(0, 12)) + list(range(1015, 1085)) + list(range(2035, 2047)) + [600, 1200, 1203, 1202, 947, 948, 949]:
        for m in (0, 1, (1 << 52) - 1, 1 << 51, 0x5555555555555, 1 << 20, 0xff, 0xfffffffffff00):
            for s in (0, 1):
                bits.add(s << 63 | e << 52 | m)
    return sorted(bits)


DOUBLES = interesting_doubles()


def real(rng):
    r = rng.random()
    if r < .4:
        return rng.choice(DOUBLES)
    if r < .7:
        b = rng.getrandbits(64)
    elif r < .85:
        b = ber.double_bits(float(rng.randint(-10**6, 10**6)) / rng.choice([1, 2, 4, 10, 1000]))
    else:
        b = rng.getrandbits(1) << 63 | rng.getrandbits(rng.randint(1, 52))  # subnormal
    return ber.real_canon(b)


def arc(rng, top=2**63 - 1):
    return min(top, rng.choice([0, 1, 39, 40, 47, 48, 79, 80, 127, 128, 129, 175, 255, 256, 16383, 16384, 2097151, 2097152, 2**28 - 1, 2**28,
                       2**31, 2**32, 2**35 - 1, 2**35, 2**42, 2**49 - 1, 2**56 - 1, 2**56, 2**63 - 1, rng.getrandbits(rng.randint(1, 63)),
                       rng.randint(0, 1000), rng.randint(0, 200)]))


def oid(rng):
    a = rng.randint(0, 2)
    b = rng.randint(0, 39) if a < 2 else arc(rng, 2**63 - 1 - 80)
    n = rng.choice([0, 0, 1, 1, 2, 3, 4, 6, 8, 9, 12, 20, 40])
    return tuple([a, b] + [arc(rng) for _ in range(n)])


def oid39(rng):
    """arcs every implementation with a one-octet first subidentifier can carry"""
    o = oid(rng)
    return (o[0], o[1] % 40) + o[2:]


def secs(rng):
    lo, hi = model.MINSEC, model.MAXSEC
    return rng.choice([0, 1, 59, 60, 86399, 86400, 951782400, 951868799, 951868800, 1582934400, 4107542400, -1, lo, hi, 1555555555,
                       rng.randint(-2208988800, 4102444800), rng.randint(-2208988800, 4102444800), rng.randint(lo, hi)])


def time(rng):
    if rng.random() < .65:
        return ('z', secs(rng))
    s = secs(rng)
    return ('o', s, rng.choice([0, 1, 59, 60, 90, 330, 345, 720, 765, 840, -1, -30, -59, -60, -90, -210, -720, rng.randint(-840, 840)]))


def string(rng, sub, big=0.0, text=False):
    r = rng.random()
    if r < big:
        n = rng.choice(BIGLEN)
    elif r < .55:
        n = rng.randint(0, 12)
    else:
        n = rng.choice(STRLEN)
    if sub == 'BitString':
        if n == 0:
            n = 1
        body = rng.getrandbits(8 * (n - 1)).to_bytes(n - 1, 'big') if n > 1 else b''
        unused = rng.randint(0, 7) if body else 0
        if unused:
            body = body[:-1] + bytes([body[-1] & (0xff << unused) & 0xff])
        return bytes([unused]) + body
    if sub == 'OctetString' and rng.random() < .5 and not text:
        return rng.getrandbits(8 * n).to_bytes(n, 'big') if n else b''
    return bytes(rng.choice(PRINTABLE) for _ in range(n)) if n < 2000 else bytes([rng.choice(PRINTABLE)]) * n


def gen(w, rng, depth=0, big=0.0, easy_oid=False):
    k = w.kind
    if k == 'bool':
        return rng.random() < .5
    if k == 'int':
        r = rng.random()
        if r < .5:
            return rng.choice(INTS)
        if r < .8:
            return rng.randint(-300, 300)
        n = rng.randint(1, 63)
        return rng.getrandbits(n) * rng.choice([1, -1])
    if k == 'enum':
        return rng.choice(w.enum)
    if k == 'null':
        return None
    if k == 'real':
        return real(rng)
    if k == 'str':
        return string(rng, w.sub, big)
    if k == 'oid':
        return oid39(rng) if easy_oid else oid(rng)
    if k == 'time':
        return time(rng)
    if k in ('seq', 'set'):
        # late members of wide types still get exercised: bias per value
        p = rng.choice([0, .2, .5, .8, 1]) if depth < 6 else 0
        out = []
        for m in w.members:
            if m.opt == 'opt':
                out.append(gen(m.w, rng, depth + 1, big, easy_oid) if rng.random() < p else ABSENT)
            elif m.opt == 'def':
                out.append(m.default if rng.random() < .45 else gen(m.w, rng, depth + 1, big, easy_oid))
            else:
                out.append(gen(m.w, rng, depth + 1, big, easy_oid))
        return out
    if k in ('seqof', 'setof'):
        if depth > 5:
            n = 0
        else:
            n = rng.choice([0, 1, 1, 2, 3, 4, 5, 6, 7, 12] + ([30, 60, 130] if depth < 1 and w.elem.kind in ('bool', 'int', 'null', 'enum') else []))
        if depth > 2:
            n = min(n, 2)
        return [gen(w.elem, rng, depth + 1, big, easy_oid) for _ in range(n)]
    if k == 'choice':
        idx = list(w.pick or range(len(w.alts)))
        if depth > 5:
            # prefer alternatives that end
            idx.sort(key=lambda i: weight(w.alts[i].w))
            i = idx[0]
        else:
            i = rng.choice(idx)
        return (i, gen(w.alts[i].w, rng, depth + 1, big, easy_oid))
    raise ValueError(k)


def weight(w, seen=()):
    if w in seen:
        return 1000
    if w.kind in ('seq', 'set'):
        return 1 + sum(weight(m.w, seen + (w,)) for m in w.members if not m.opt)
    if w.kind in ('seqof', 'setof'):
        return 1
    if w.kind == 'choice':
        return 1 + min(weight(m.w, seen + (w,)) for m in w.alts)
    return 0


def nontrivial(w, v):
    k = w.kind
    if v is ABSENT:
        return False
    if k in ('seq', 'set', 'seqof', 'setof'):
        return len(v) > 0
    if k == 'choice':
        return True
    return v not in (0, False, None, b'')


# ---------------------------------------------------------------- mutations of encodings
def mutate(rng, data, others=()):
    """one or a few structural or byte-level corruptions"""
    b = bytearray(data)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        r = rng.random()
        pos = positions(bytes(b))
        if r < .12 and b:
            b = b[:rng.randint(0, len(b) - 1)]
        elif r < .3 and b:
            i = rng.randrange(len(b))
            b[i] = rng.choice([b[i] ^ (1 << rng.randint(0, 7)), rng.randint(0, 255), 0, 0xff, 0x80, 0x7f, 0x1f, 0x30])
        elif r < .55 and pos:
            o, t = rng.choice(pos)
            # header of a random nested element
            s = bytearray(b[o:o + t.total])
            what = rng.randint(0, 8)
            if what == 0:
                s[0] ^= 0x20
            elif what == 1:
                s[0] ^= rng.choice([0x40, 0x80, 0xC0])
            elif what == 2:
                s[0] = (s[0] & 0xE0) | ((s[0] + rng.choice([1, 30])) & 0x1f)
            elif what == 3:
                s[t.tlen] = (s[t.tlen] + rng.choice([1, 255, 2, 128])) & 255
            elif what == 4:
                s = bytearray(ber.ident(t.cls, t.con, t.num or 0) + ber.length(len(t.content), rng.randint(1, 4)) + t.content)
            elif what == 5:
                s = bytearray(ber.ident(t.cls, t.con, t.num or 0) + b'\x80' + t.content + b'\0\0')
            elif what == 6:
                s = bytearray(ber.ident(t.cls, t.con, t.num or 0) + bytes([0x80 | 8]) + rng.choice([b'\xff' * 8, b'\x7f' + b'\xff' * 7, b'\x80' + b'\0' * 7, (2**64 - rng.randint(1, 20)).to_bytes(8, 'big')]) + t.content)
            elif what == 7:
                s = bytearray([t.cls << 6 | t.con << 5 | 31]) + bytes([0x80 | rng.randint(0, 127)] * rng.choice([0, 1, 4, 8, 9, 10, 12])) + bytes([rng.randint(0, 127)]) + ber.length(len(t.content)) + t.content
            else:
                s = bytearray(ber.tlv(t.cls, t.con, t.num or 0, bytes(rng.getrandbits(8) for _ in range(rng.choice([0, 1, 2, 9, 12])))))
            b = b[:o] + s + b[o + t.total:]
        elif r < .7 and len(pos) > 1:
            # delete, duplicate or swap nested elements, repairing nothing
            o, t = rng.choice(pos)
            s = b[o:o + t.total]
            if rng.random() < .5:
                b = b[:o] + b[o + t.total:]
            else:
                b = b[:o] + s + s + b[o + t.total:]
        elif r < .85:
            i = rng.randint(0, len(b))
            b = b[:i] + bytes(rng.getrandbits(8) for _ in range(rng.choice([1, 1, 2, 3, 8]))) + b[i:]
        elif others:
            o = rng.choice(others)
            if pos and rng.random() < .5:
                p, t = rng.choice(pos)
                b = b[:p] + o + b[p + t.total:]
            else:
                b = bytearray(o)
    return bytes(b)


def positions(data, base=0, depth=0, out=None):
    """(offset, TLV) of all nested elements"""
    if out is None:
        out = []
    p = 0
    while p < len(data) and len(out) < 200:
        t = ber.parse(data, p)
        if t is None:
            break
        out.append((base + p, t))
        if t.con and depth < 12:
            positions(t.content, base + p + t.hlen, depth + 1, out)
        p += t.total
    return out


def restructure(rng, data):
    """one structural corruption with all enclosing lengths repaired, so that only that one thing is wrong"""
    def tree(d):
        els, clean = ber.elements(d)
        if not clean:
            return None
        r = []
        for t in els:
            kids = tree(t.content) if t.con else None
            r.append([t.cls, t.con, t.num or 0, t.content if kids is None else None, kids])
        return r

    def ser(nodes):
        out = b''
        for c, con, n, content, kids in nodes:
            if isinstance(c, bytes):
                out += c
            else:
                out += ber.tlv(c, con, n, content if kids is None else ser(kids))
        return out
    t = tree(data)
    if not t:
        return data
    lists = []

    def walk(nodes):
        lists.append(nodes)
        for n in nodes:
            if n[4] is not None:
                walk(n[4])
    walk(t)
    nodes = rng.choice([l for l in lists if l] or [t])
    i = rng.randrange(len(nodes))
    n = nodes[i]
    op = rng.randint(0, 10)
    if op == 0:
        del nodes[i]
    elif op == 1:
        nodes.insert(rng.randint(0, len(nodes)), list(n))
    elif op == 2 and len(nodes) > 1:
        j = rng.randrange(len(nodes))
        nodes[i], nodes[j] = nodes[j], nodes[i]
    elif op == 3:
        n[0] = (n[0] + rng.randint(1, 3)) % 4
    elif op == 4:
        n[2] = rng.choice([n[2] + 1, max(0, n[2] - 1), n[2] ^ 32, n[2] + 128, 31, 30, 0, 127, 128])
    elif op == 5:
        n[1] ^= 1
        if n[4] is not None:
            n[3], n[4] = ser(n[4]), None
    elif op == 6:
        nodes.insert(rng.randint(0, len(nodes)), [rng.choice([0, 1, 2, 3]), 0, rng.choice([0, 1, 2, 5, 17, 30, 31, 99]), b'\1', None])
    elif op == 7:
        nodes.insert(rng.randint(0, len(nodes)), [rng.choice([b'\x30', b'\x02', b'\x02\x05\x01', b'\x9f', b'\x02\x88' + b'\xff' * 8, b'\x02\x80\x00\x00']), 0, 0, b'', None])
    elif op == 8 and n[4] is None:
        c = n[3] or b''
        n[3] = rng.choice([c + b'\0', c[:-1], b'\xff' * 9, b'', b'\0\0', b'\x01' * 9])
    elif op == 9 and n[4] is not None:
        n[4] = []
    else:
        n[4], n[3] = [[ber.UNIV, 0, 2, b'\7', None]], None
        n[1] = 1
    return ser(t)
