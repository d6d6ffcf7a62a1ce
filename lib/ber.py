"""Independent X.690 reference: identifier/length octets, TLV parsing, primitive contents. No code shared with /repo."""
import math, struct
from fractions import Fraction

UNIV, APPL, CTX, PRIV = 0, 1, 2, 3
CLASSNAMES = {UNIV: 'UNIVERSAL', APPL: 'APPLICATION', CTX: '', PRIV: 'PRIVATE'}


def ident(cls, constructed, num, pad=0):
    first = (cls << 6) | (0x20 if constructed else 0)
    if num <= 30:
        return bytes([first | num])
    digits = []
    n = num
    while True:
        digits.append(n & 0x7f)
        n >>= 7
        if not n:
            break
    digits += [0] * pad
    digits.reverse()
    return bytes([first | 31]) + bytes(d | (0x80 if i < len(digits) - 1 else 0) for i, d in enumerate(digits))


def length(n, extra=0):
    """minimal length octets; extra > 0: over-long form with that many superfluous octets"""
    if n < 0x80 and not extra:
        return bytes([n])
    b = n.to_bytes(max(1, (n.bit_length() + 7) // 8), 'big')
    if extra:
        base = 0 if n < 0x80 else len(b)
        want = (len(b) if n < 0x80 else len(b)) + (extra - 1 if n < 0x80 else extra)
        b = b'\0' * (want - len(b)) + b
    return bytes([0x80 | len(b)]) + b


def tlv(cls, constructed, num, content, extra=0):
    return ident(cls, constructed, num) + length(len(content), extra) + content


class TLV:
    __slots__ = ('cls', 'con', 'num', 'hlen', 'content', 'total', 'tlen', 'indefinite')

    def __repr__(self):
        return f'TLV({self.cls},{self.con},{self.num},h={self.hlen},c={self.content.hex()})'


MAXTAG = (1 << 63) - 1


def parse(data, pos=0, end=None):
    """First complete definite-length TLV of data[pos:end], else None. Tag numbers above 63 bits give .num None."""
    if end is None:
        end = len(data)
    p = pos
    if p >= end:
        return None
    b = data[p]
    p += 1
    t = TLV()
    t.cls, t.con, t.num = b >> 6, (b >> 5) & 1, b & 31
    if t.num == 31:
        n = 0
        while True:
            if p >= end:
                return None
            c = data[p]
            p += 1
            n = (n << 7) | (c & 0x7f)
            if not c & 0x80:
                break
        t.num = n if n <= MAXTAG else None
    t.tlen = p - pos
    if p >= end:
        return None
    l = data[p]
    p += 1
    if l & 0x80:
        k = l & 0x7f
        if k == 0 or k > 8 or p + k > end:
            return None
        l = int.from_bytes(data[p:p + k], 'big')
        p += k
    if l > end - p:
        return None
    t.hlen = p - pos
    t.content = data[p:p + l]
    t.total = t.hlen + l
    return t


def elements(data):
    """(list of complete consecutive TLVs, clean) ; clean: they tile data exactly"""
    out, p = [], 0
    while p < len(data):
        t = parse(data, p)
        if t is None:
            return out, False
        out.append(t)
        p += t.total
    return out, True


def enc_int(v):
    n = 1
    while not (-(1 << (8 * n - 1)) <= v < (1 << (8 * n - 1))):
        n += 1
    return v.to_bytes(n, 'big', signed=True)


def dec_int(c):
    return int.from_bytes(c, 'big', signed=True)


def enc_oid(arcs):
    out = b''
    for n in [arcs[0] * 40 + arcs[1]] + list(arcs[2:]):
        d = [n & 0x7f]
        n >>= 7
        while n:
            d.append((n & 0x7f) | 0x80)
            n >>= 7
        out += bytes(reversed(d))
    return out


def dec_oid(c):
    """arcs, or None if c is not a valid encoding (empty, truncated, padded)"""
    subs, n, start = [], 0, True
    for b in c:
        if start and b == 0x80:
            return None
        start = False
        n = (n << 7) | (b & 0x7f)
        if not b & 0x80:
            subs.append(n)
            n, start = 0, True
    if not start or not subs:
        return None
    f = subs[0]
    a = min(f // 40, 2)
    return tuple([a, f - 40 * a] + subs[1:])


def double_bits(d):
    return struct.unpack('>Q', struct.pack('>d', d))[0]


def bits_double(b):
    return struct.unpack('>d', struct.pack('>Q', b))[0]


NAN_BITS = 0x7ff8000000000000


def frac_to_double(fr):
    """nearest double (ties to even), infinities on overflow"""
    try:
        return fr.numerator / fr.denominator
    except OverflowError:
        return math.inf if fr > 0 else -math.inf


def dec_real(c):
    """bits of the double nearest to the value of valid REAL contents, or None if the contents are not valid.
    NaN gives NAN_BITS."""
    import re
    if len(c) == 0:
        return double_bits(0.0)
    b = c[0]
    if b & 0x80:
        bb = (b >> 4) & 3
        if bb == 3:
            return None
        sign = -1 if b & 0x40 else 1
        f = (b >> 2) & 3
        p = 1
        el = (b & 3) + 1
        if el == 4:
            if len(c) < 2:
                return None
            el = c[1]
            p = 2
            if el == 0:
                return None
        if p + el >= len(c):
            return None
        ex = c[p:p + el]
        if el > 1 and ((ex[0] == 0xff and ex[1] & 0x80) or (ex[0] == 0 and not ex[1] & 0x80)):
            if c[0] & 3 == 3:
                return None  # 8.5.7.4 d)
            # not explicitly excluded for the short forms; leave to the caller
        e = int.from_bytes(ex, 'big', signed=True)
        m = int.from_bytes(c[p + el:], 'big')
        if m == 0:
            return None
        base2 = e * {0: 1, 1: 3, 2: 4}[bb] + f
        # magnitude estimate avoids building astronomically large integers
        top = base2 + m.bit_length()
        if top > 1100:
            r = math.inf
        elif top < -1200:
            r = 0.0
        else:
            r = frac_to_double(Fraction(m) * (Fraction(2) ** base2))
        return double_bits(math.copysign(r, sign))
    if b & 0xC0 == 0x40:
        if len(c) != 1:
            return None
        return {0x40: double_bits(math.inf), 0x41: double_bits(-math.inf), 0x42: NAN_BITS,
                0x43: double_bits(-0.0)}.get(b)
    nr = b & 0x3f
    try:
        s = c[1:].decode('ascii')
    except UnicodeDecodeError:
        return None
    pats = {1: r' *[+-]?[0-9]+', 2: r' *[+-]?([0-9]+[.,][0-9]*|[0-9]*[.,][0-9]+)',
            3: r' *[+-]?([0-9]+[.,][0-9]*|[0-9]*[.,][0-9]+)[Ee][+-]?[0-9]+'}
    if nr not in pats or not re.fullmatch(pats[nr], s):
        return None
    t = s.strip().replace(',', '.')
    return double_bits(float(t))


def real_canon(bits):
    return NAN_BITS if (bits & 0x7ff0000000000000) == 0x7ff0000000000000 and bits & 0xfffffffffffff else bits


def enc_real_libform(bits):
    """The form this library writes (base 2, 1- or 2-octet exponent, 7-octet mantissa). Only used as a fast path:
    a different but valid encoding of the same value is accepted too (see model.match)."""
    bits = real_canon(bits)
    s, e, m = bits >> 63, (bits >> 52) & 0x7ff, bits & ((1 << 52) - 1)
    if e == 0x7ff:
        return b'\x42' if m else (b'\x41' if s else b'\x40')
    if e == 0 and m == 0:
        return b'\x43' if s else b''
    if e == 0:
        m <<= 1
        x = -1075
    else:
        m |= 1 << 52
        x = e - 1075
    if -128 <= x <= 127:
        return bytes([0x80 | s << 6]) + x.to_bytes(1, 'big', signed=True) + m.to_bytes(7, 'big')
    return bytes([0x81 | s << 6]) + x.to_bytes(2, 'big', signed=True) + m.to_bytes(7, 'big')
