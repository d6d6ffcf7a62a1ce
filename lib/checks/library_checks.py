"""C14 lifetimes, C15 views, C16 containers: the run-time library's own data structures."""
import os, re
from lib import ber, builtin, build, drv, wire
from lib.checks.content_checks import content_driver, Simple
from lib.checks.wire_checks import repeat, rng_for, scale, STEP


# ---------------------------------------------------------------- C14
VARIANT_KINDS = ['DynamicVariant', 'Choice-static', 'Choice-dynamic']
OPTIONAL_KINDS = ['DynamicOptional', 'Optional-static', 'Optional-static-B', 'Optional-dynamic', 'Optional-dynamic-B']
V_NEW, V_ONE, V_TWO, V_ANY = 'dvVwtinlLcr', 'eE=>mMksuUgGxX?~', 'CRxX?', 'eE=>mMk'
O_NEW, O_ONE, O_TWO = 'd0vVkcr', 'eEf=>jzsu!~?', 'CRx?'


def history(rng, kind):
    """operations which mostly make sense, some that do not (the harness skips those)"""
    ops = []
    there = [False] * 4
    opt = kind in OPTIONAL_KINDS
    new, one, two = (O_NEW, O_ONE, O_TWO) if opt else (V_NEW, V_ONE, V_TWO)
    arms = rng.choice([[0], [0, 0, 1], [0, 1, 2, 3], [1]])
    for j in range(rng.randint(1, rng.choice([6, 20, 60, 60, 150]))):
        a, b = rng.randrange(4), rng.randrange(4)
        if kind == 'Tree':
            op = rng.choice('CCCRRbbeu??')
        elif rng.random() < .05:
            op = rng.choice(new + one + two)
        elif not there[a]:
            live = [i for i in range(4) if there[i]]
            op = rng.choice(new)
            if op in 'cr' and live:
                b = rng.choice(live)
        elif rng.random() < .4:
            live = [i for i in range(4) if there[i]]
            op, b = rng.choice(two), rng.choice(live)
        else:
            op = rng.choice(one if rng.random() < .25 else one.replace('~', ''))
        if op == '~':
            there[a] = False
        elif op in new and kind != 'Tree':
            there[a] = True
        ops.append('%s.%d.%d.%d.%d' % (op, a, b, rng.choice([0, 1, 2, 3, rng.randint(1, 99)]) or rng.randint(1, 99), rng.choice(arms)))
    return 'H %s %s' % (kind, ' '.join(ops))


def build_lifetimes(opt, cc='clang++', std='-std=c++17', san=True, name='lifetimes'):
    d = build.sub(name + opt + cc + std)
    flags = build.SAN if san else []
    o = os.path.join(d, name + '.o')
    r = build.sh([cc, std, '-w', '-pthread', opt, '-fno-strict-aliasing'] + flags + ['-I' + build.REPO + '/include', '-I' + build.CPP, '-c', os.path.join(build.CPP, name + '.cpp'), '-o', o])
    if r.returncode:
        raise build.HarnessError('the harness of %s does not compile: ' % name + r.stderr.decode(errors='replace')[-3000:])
    objs = [o]
    jobs = build.lib_jobs(name + '-lib', ['-O0'] + build.SAN) if san else []
    objs += build.parallel([j for j, _ in jobs])
    return build.link(objs, os.path.join(d, name), flags)


def c14(chk):
    chk.rule = 'distinct histories of at least four operations, on at most four variants, choices or optionals at once (or two trees of variants)'
    rng = rng_for('C14')
    exes = [('clang -O0', build_lifetimes('-O0'))]
    if scale(0, 1):
        exes.append(('clang -O2', build_lifetimes('-O2')))
    kinds = VARIANT_KINDS + OPTIONAL_KINDS + ['Tree']
    chk.minimum = 1000
    chk.assumptions = ['default constructors of the contained types do not throw; moving a tree into its own descendant and emplacing an inline choice\'s own alternative are excluded (undefined for std::variant too)']

    def part(n):
        lines = [history(rng, kinds[i % len(kinds)]) for i in range(n)]
        if chk.replaying is not None:
            lines = [l for l in lines if l == chk.replaying.get('case')]
            if not lines and chk.replaying.get('case'):
                lines = [chk.replaying['case']]
        for label, exe in exes:
            judge_lifetimes(chk, label, exe, lines)
    if chk.replaying is not None:
        return part(0)
    repeat(chk, part, scale(60000, 1500000), STEP)


def judge_lifetimes(chk, label, exe, lines):
    for line, r in zip(lines, drv.run(exe, lines, 'lifetimes')):
        kind = line.split()[1]
        rep = {'harness': 'lifetimes', 'build': label, 'case': line}
        if r is None:
            chk.inconclusive += 1
            continue
        chk.case(1, line if line.count(' ') > 4 else None)
        if r.kind == 'bad':
            raise build.HarnessError('lifetimes: ' + r.out)
        if r.kind != 'ok':
            chk.violation('%s:%s:%s' % (kind, r.kind, wire.crash_class(r)), '%s: %s in the history %s' % (kind, drv.summarize(r.report) or r.out, line[:600]),
                          dict(rep, report=r.report[:6000]))
        elif r.out.startswith('VIOL '):
            what = r.out[5:]
            m = re.match(r'operation (\d+) \((.)\): (.*)', what)
            n, op, w = (int(m.group(1)), m.group(2), m.group(3)) if m else (0, '', what)
            # the part of the history up to the failure is enough
            short = ' '.join(line.split(' ')[:2 + n]) if n else line
            chk.violation('%s:%s:%s' % (kind, op, re.sub(r'[-\d]+', 'N', w)), '%s: %s; history: %s' % (kind, what, short[-600:]), dict(rep, case=short))
        else:
            chk.event('histories of ' + kind)
            for x in r.out[3:].split(';'):
                if x:
                    k, v = x.rsplit(':', 1)
                    chk.event(k, int(v))
            if len(line) < 300:
                chk.sample(line + ' -> held')


# ---------------------------------------------------------------- C15
def noncanonical_tag(b):
    """a tag number in a form X.690 8.1.2.4 does not allow: whether it is refused is left open"""
    if not b or b[0] & 31 != 31 or len(b) < 2:
        return False
    return b[1] == 0x80 or b[1] < 31


def any_noncanonical(b, depth=0):
    p = 0
    while p < len(b):
        if noncanonical_tag(b[p:]):
            return True
        t = ber.parse(b, p)
        if t is None:
            return False
        if t.con and depth < 70 and any_noncanonical(t.content, depth + 1):
            return True
        p += t.total
    return False


def parse63(b, p=0):
    t = ber.parse(b, p)
    return None if t is None or t.num is None else t


def tiles(b):
    out, p = [], 0
    while p < len(b):
        t = parse63(b, p)
        if t is None:
            return out, False
        out.append((p, t))
        p += t.total
    return out, True


def field_text(t, base=0):
    return '%d,%d,%d,%d,%d,%d,%d,%d,%d,%d,%d,%d,%d,%d,%d;' % (
        t.cls, t.con, t.num, t.tlen, t.hlen, len(t.content), base + t.hlen, len(t.content), base + t.hlen, base, t.total, t.total, base, t.cls, t.num)


def children_text(b, base):
    return '[' + ''.join('%d+%d/%d ' % (base + p, t.total, t.num) for p, t in tiles(b)[0]) + ']'


def tree_text(t, base, depth=0):
    s = '%d+%d:' % (base, t.total)
    if t.con and depth < 60:
        s += '(' + ''.join(tree_text(c, base + t.hlen + p, depth + 1) for p, c in tiles(t.content)[0]) + ')'
    return s


def view_text(b):
    t = parse63(b)
    s = field_text(t) if t else '-'
    s += ' top' + children_text(b, 0) + (' complete' if tiles(b)[1] else ' leftover')
    if t:
        s += ' inner' + children_text(t.content, t.hlen) + ' tree ' + tree_text(t, 0)
    s += ' prefixes '
    for k in range(min(len(b), 24)):
        u = parse63(b[:k])
        s += '%d,' % u.total if u else '-'
    return s


def rand_tlv(rng, depth):
    cls = rng.randrange(4)
    num = rng.choice([0, 1, 2, 16, 30, 31, 32, 127, 128, 200, 16383, 16384, rng.choice(builtin.TAGS), rng.getrandbits(rng.choice([7, 14, 21, 35, 62]))])
    extra = rng.choice([0, 0, 0, 0, 1, 2, 3, 6, 7])
    if depth > 0 and rng.random() < .6:
        c = b''.join(rand_tlv(rng, depth - 1) for _ in range(rng.choice([0, 1, 1, 2, 3, 5])))
        if rng.random() < .1:
            c += rng.choice([b'\0', b'\x1f', b'\x80', b'\x04\x05ab', b'\x04\x80', b'\xff\xff'])
        con = rng.random() < .93
    else:
        n = rng.choice([0, 1, 2, 3, 5, 20, 126, 127, 128, 129, 255, 256, 300]) if rng.random() < .2 else rng.randint(0, 6)
        c = bytes(rng.getrandbits(8) for _ in range(n))
        con = rng.random() < .05
    n = ber.length(len(c), 0)
    if len(n) - 1 + extra > 8:
        extra = 0
    return ber.tlv(cls, con, num, c, extra)


def hostile_header(rng):
    first = rng.getrandbits(8) | (0x1f if rng.random() < .6 else 0)
    out = bytes([first])
    if first & 31 == 31:
        k = rng.choice([1, 2, 3, 5, 8, 9, 10, 11, 12, 20])
        g = [rng.getrandbits(7) | 0x80 for _ in range(k - 1)] + [rng.getrandbits(7)]
        if rng.random() < .3:
            g[0] = rng.choice([0x81, 0xff, 0xc0, 0x80])
        if rng.random() < .15:
            g = [0xff] * (k - 1) + [0x7f]
        if rng.random() < .1:
            g[-1] |= 0x80
        out += bytes(g)
    r = rng.random()
    left = rng.choice([0, 1, 2, 5, 130, 260])
    if r < .3:
        l = bytes([rng.choice([0x80, 0x89, 0x8a, 0xff, 0xfe, 0x90, 0x81, 0x82, 0x84, 0x88])]) + bytes(rng.getrandbits(8) for _ in range(rng.randint(0, 12)))
    elif r < .6:
        v = rng.choice([left, left + 1, max(0, left - 1), 2**64 - 1, 2**63, 2**63 - 1, 2**32, 2**32 + left, 2**64 - len(out), 2**64 - len(out) - 9, 2**64 - rng.randint(1, 40), 2**31, 65536 + left, 256 * left])
        k = max(1, (v.bit_length() + 7) // 8)
        k = rng.choice([k, min(8, k + 1), 8])
        l = bytes([0x80 | k]) + v.to_bytes(k, 'big')
    else:
        l = ber.length(max(0, left + rng.choice([0, 0, 0, 1, -1])), rng.choice([0, 0, 1]))
    return out + l + bytes(rng.getrandbits(8) for _ in range(left))


def view_input(rng):
    r = rng.random()
    if r < .35:
        b = rand_tlv(rng, rng.choice([0, 1, 2, 3]))
    elif r < .5:
        b = b''.join(rand_tlv(rng, rng.choice([0, 1, 2])) for _ in range(rng.randint(0, 5)))
    elif r < .7:
        return hostile_header(rng)
    elif r < .75:
        return bytes(rng.getrandbits(8) for _ in range(rng.choice([0, 1, 2, 3, 4, 6, 10, 30])))
    elif r < .77:
        d = rng.choice([5, 30, 60, 61, 62, 100])
        b = b'\x05\0'
        for _ in range(d):
            b = ber.tlv(rng.randrange(4), 1, rng.choice([3, 16, 31]), b, rng.choice([0, 0, 1]))
        return b
    else:
        b = rand_tlv(rng, 2)
        b = wire_mutate(rng, b)
    if rng.random() < .15:
        b += bytes(rng.getrandbits(8) for _ in range(rng.randint(1, 4)))
    return b


def wire_mutate(rng, b):
    b = bytearray(b)
    for _ in range(rng.choice([1, 1, 2, 4])):
        if not b:
            break
        k = rng.randrange(5)
        i = rng.randrange(min(len(b), 12)) if rng.random() < .6 else rng.randrange(len(b))
        if k == 0:
            b[i] ^= 1 << rng.randrange(8)
        elif k == 1:
            b[i] = rng.choice([0, 1, 0x1f, 0x3f, 0x7f, 0x80, 0x81, 0x82, 0x84, 0x88, 0x89, 0xff, rng.getrandbits(8)])
        elif k == 2:
            del b[i:i + rng.choice([1, 1, 2, 5])]
        elif k == 3:
            b[i:i] = bytes(rng.getrandbits(8) for _ in range(rng.choice([1, 1, 3])))
        else:
            del b[rng.randrange(len(b)):]
    return bytes(b)


def systematic_views():
    """every one- and two-octet input, and every identifier octet and length form around what is there"""
    out = [b''] + [bytes([a]) for a in range(256)] + [bytes([a, b]) for a in range(256) for b in range(256)]
    for first in range(256):
        for rest in (b'\0', b'\x01a', b'\x02a', b'\x80\0\0', b'\x81\x01a', b'\x81\x02a', b'\x82\0\x01a', b'\x7f\x01a', b'\x81\x00\x01a', b'\x88' + b'\0' * 7 + b'\x01a', b'\x89' + b'\0' * 8 + b'\x01a',
                     b'\xff\xff\x7f\x01a', b'\x81\x80\x80\x00\x01a'):
            out.append(bytes([first]) + rest)
    for lead in (b'\x04', b'\x30', b'\x1f\x20', b'\xbf\x81\x00', b'\x7f\xff\xff\xff\xff\xff\xff\xff\xff\x7f'):
        for lo in range(256):
            for n in (0, 1, 3):
                out.append(lead + bytes([lo]) + b'\0' * n)
        for k in range(1, 11):
            for tail in (0, 1, 2, 3):
                for v in (0, 1, 2, 3, 255, 256, 2**(8 * k) - 1, 2**(8 * k - 1), 2**64 - len(lead) - 1 - k, 2**64 - len(lead)):
                    if v < 2**(8 * k):
                        out.append(lead + bytes([0x80 | k]) + v.to_bytes(k, 'big') + b'\x05' * tail)
    return out


def c15(chk):
    chk.rule = 'distinct inputs of more than two octets, viewed through BerView, MutableBerView and both iterators, whole and as every prefix of up to 23 octets'
    chk.assumptions = ['identifiers in a form X.690 8.1.2.4 does not allow (leading zero groups, small numbers in the long form) may be refused or read as the number they denote; '
                       'tag numbers beyond 63 bits and lengths of more than eight octets are not representable and have to be refused; indefinite lengths are refused']
    rng = rng_for('C15')
    exe = content_driver([], 'views', header='views.hpp', plain=[('view', 'run_view')])
    s = Simple(exe, [])
    s.label = 'views'
    t = wireless('view')
    systematic = systematic_views()

    def part(n):
        ins = [view_input(rng) for _ in range(n)]
        judge_views(chk, s, t, ins)
    if chk.replaying is not None:
        return judge_views(chk, s, t, [bytes.fromhex(chk.replaying['case'].split(' ')[2])])
    judge_views(chk, s, t, systematic)
    for i in range(scale(0, 16)):  # thorough: every three-octet input
        judge_views(chk, s, t, [bytes([a, b, c]) for a in range(16 * i, 16 * i + 16) for b in range(256) for c in range(256)], brief=True)
    repeat(chk, part, scale(60000, 1500000), 40000)


class wireless:
    def __init__(self, name):
        self.name = self.desc = self.group = name


def judge_views(chk, s, t, ins, brief=False):
    lines = ['V %s %s' % (t.name, b.hex()) for b in ins]
    for b, line, r in zip(ins, lines, drv.run(s.exe, lines, 'views')):
        chk.case(1, b if len(b) > 2 else None)
        if wire.broken(chk, s, t, line, r, 'view'):
            continue
        want = view_text(b)
        if r.out == want:
            if not brief:
                chk.event('valid views' if parse63(b) else 'invalid views')
                chk.event('elements iterated', want.count('+'))
                if 4 < len(b) < 40 and len(chk.samples) < 12 and parse63(b):
                    chk.sample(b.hex() + ' -> ' + want)
            continue
        if any_noncanonical(b) or any(noncanonical_tag(b[:k]) for k in range(2, min(4, len(b)))):
            # only a crash or inconsistent accessors count there
            chk.event('identifiers in a form which is not allowed')
            if re.search(r'[a-z]{3,}-[a-z]{3,}|reassigned|mutable|iterator:|extract', r.out):
                chk.violation('view:inconsistent', 'the views of %s disagree: %s' % (b.hex()[:200], r.out[:300]), wire.replay(s, t, line))
            continue
        chk.violation('view:' + view_class(r.out, want), 'viewing %s reports\n    %s\n  an independent parser reports\n    %s' % (b.hex()[:400], r.out[:500], want[:500]), wire.replay(s, t, line))


def view_class(got, want):
    m = re.search(r'reassigned|mutable|iterator|extract[a-z-]*|encode|input-changed|endless|copy-differs|invalid-element|not-at-end', got)
    if m:
        return m.group(0).strip('-')
    for name in (' top', ' inner', ' tree', ' prefixes'):
        g, w = got.split(name)[0], want.split(name)[0]
        if g != w:
            return {' top': 'header', ' inner': 'siblings', ' tree': 'children', ' prefixes': 'nesting'}[name]
    return 'prefix'


# ---------------------------------------------------------------- C16
class Generic:
    """the model of a BerContainer: a byte string which is one TLV, or nothing"""

    def __init__(self):
        self.b = b'\0\0'

    def tlv(self):
        return parse63(self.b) if self.b else None

    def content(self):
        t = self.tlv()
        return t.content if t else b''


SIZES = [0, 0, 1, 2, 3, 5, 10, 50, 90, 95, 96, 97, 98, 99, 100, 101, 110, 125, 126, 127, 128, 129, 130, 200, 252, 253, 254, 255, 256, 257, 300]
BIG = [4000, 65530, 65535, 65536, 70000]


def rbytes(rng, n):
    return bytes(rng.getrandbits(8) for _ in range(n)) if n < 500 else rng.getrandbits(8 * n).to_bytes(n, 'big')


def item(d):
    return '%d:%s' % (len(d), d.hex())


class CT:
    """a container type: kind in generic | fixed | small | string"""

    def __init__(self, name, cpp, kind, tags, limit=None):
        self.name, self.cpp, self.desc, self.kind, self.tags, self.limit, self.group = name, cpp, cpp, kind, tags, limit, kind

    def wrap(self, content):
        if self.kind == 'generic':
            return b'\0' + ber.length(len(content)) + content
        b = content
        for j, (c, n) in enumerate(reversed(self.tags)):
            b = ber.tlv(c, 1 if j else 0, n, b)
        return b

    def size(self, rng):
        if self.limit is not None:
            return min(self.limit, rng.choice([0, 1, 2, self.limit, max(0, self.limit - 1), rng.randint(0, self.limit)]))
        return rng.choice(BIG) if rng.random() < .02 else rng.choice(SIZES) if rng.random() < .8 else rng.randint(0, 400)

    def packet(self, rng):
        """valid or not, for decoding"""
        c = rbytes(rng, self.size(rng))
        r = rng.random()
        if self.kind == 'generic':
            b = rand_tlv(rng, 1) if r < .4 else ber.tlv(rng.randrange(4), rng.randrange(2), rng.choice([0, 3, 31, 127, 128, 2**40]), c, rng.choice([0, 0, 0, 1, 3]))
        else:
            b = c
            for j, (cl, n) in enumerate(reversed(self.tags)):
                b = ber.tlv(cl, 1 if j else 0, n, b, rng.choice([0, 0, 0, 1, 2, 4]))
        if r > .93:
            b += b'\x05\0'[:rng.randint(1, 2)]  # a view ends with its element
        elif r > .85:
            b = wire_mutate(rng, b)
        elif r > .82:
            b = b[:rng.randint(0, len(b))]
        return b


def accepts(ct, b):
    """-> (bytes of the packet, content) or None"""
    t = parse63(b)
    if t is None:
        return None
    if ct.kind == 'generic':
        return b[:t.total], t.content
    packet = b[:t.total]
    for j, (c, n) in enumerate(ct.tags):
        last = j == len(ct.tags) - 1
        if (t.cls, t.num, t.con) != (c, n, 0 if last else 1):
            return None
        if not last:
            inner = parse63(t.content)
            if inner is None or inner.total != len(t.content):
                return None
            t = inner
    if ct.limit is not None and len(t.content) > ct.limit:
        return None
    return packet, t.content


CONT_OPS = 'aaanpvddd=rrrrwfcmCMsSxXoO??'
STR_OPS = 'ab12345678qQuydddvrrrrwfcmCMsSxX??'


def script(rng, ct):
    ops = []
    string = ct.kind == 'string'
    for _ in range(rng.randint(1, rng.choice([4, 10, 25]))):
        op = rng.choice(STR_OPS if string else CONT_OPS + ('HHhH' if ct.kind == 'generic' else ''))
        if ct.kind == 'generic' and op == '?':
            op = 'r'
        if op in 'Hh' and not string:
            ops.append('%s%d:%d:%d:%s' % (op, rng.randrange(2), rng.randrange(4), rng.choice([0, 1, 30, 31, 127, 128, 16384, 2**32, 2**63 - 1, rng.choice(builtin.TAGS)]), item(rbytes(rng, ct.size(rng)))))
        elif op in ('pvd=' if not string else 'dv'):
            ops.append(op + item(ct.packet(rng)))
        elif op == 'r':
            ops.append('r%d:' % ct.size(rng))
        elif op == 'w':
            ops.append('w%d:%d:' % (rng.choice([0, 1, 2, rng.randint(0, 300)]), rng.getrandbits(8)))
        elif op == 'f':
            ops.append('f%d:' % rng.getrandbits(8))
        elif op in ('anoO' if not string else 'ab12345678qQuy'):
            n = ct.size(rng)
            if op in 'oO' and ct.kind == 'small':
                n = min(n, 7)
            d = rbytes(rng, n)
            if op in '15' and string:
                d = d.replace(b'\0', b'x')  # C strings end there
            ops.append(op + item(d))
        else:
            ops.append(op)
    return ' '.join(ops)


class Bad(Exception):
    pass


class Slot:
    """what a container is known to hold"""

    def __init__(self, ct):
        self.ct = ct
        self.packet = ct.wrap(b'')
        self.content = b''

    def set(self, content, packet=None):
        self.content, self.packet = content, self.ct.wrap(content) if packet is None else packet

    def copy(self):
        s = Slot(self.ct)
        s.content, s.packet = self.content, self.packet
        return s


def parse_state(ct, text):
    """-> (content, packet); None content: invalid. Raises Bad when inconsistent in itself"""
    if ct.kind == 'generic' and text == 'invalid':
        return None, b''
    m = re.match(r'(\d+),(\d+),(-?\d+),([0-9a-f]*),([0-9a-f]*),(.*)$', text)
    if ct.kind == 'string':
        m = re.match(r'([0-9a-f]*),([0-9a-f]*),(.*)$', text)
        if not m:
            raise Bad('unreadable state ' + text[:80])
        content, packet, more = bytes.fromhex(m.group(1)), bytes.fromhex(m.group(2)), m.group(3)
    else:
        if not m:
            raise Bad('unreadable state ' + text[:80])
        content, packet, more = bytes.fromhex(m.group(4)), bytes.fromhex(m.group(5)), m.group(6)
    if ct.kind == 'generic':
        h = re.match(r'(\d)\.(\d+)\.(\d+)\.$', more)
        if not h:
            raise Bad('the accessors disagree: ' + more[:60])
        t = parse63(packet)
        if t is None or t.total != len(packet):
            raise Bad('the packet is no well-formed TLV')
        if m.group(1) != '1' or (t.cls, t.num) != (int(m.group(2)), int(m.group(3))) or (t.con, t.tlen, t.hlen) != tuple(int(x) for x in h.groups()):
            raise Bad('the header reported is not the header of the packet')
        if t.content != content:
            raise Bad('the content reported is not the content of the packet')
        return content, packet
    if more:
        raise Bad('the accessors disagree: ' + more[:60])
    if ct.kind != 'string' and (m.group(1) != '1' or (int(m.group(2)), int(m.group(3))) != ct.tags[0]):
        raise Bad('the identifier reported is not the identifier of the type')
    ok = accepts(ct, packet)
    if ok is None or ok[0] != packet:
        raise Bad('the packet is no well-formed TLV of the type')
    if ok[1] != content:
        raise Bad('the content reported is not the content of the packet')
    return content, packet


def same_state(ct, slot, st):
    """the generic container's and a decoded packet's header octets are part of the state"""
    return st == (slot.content, slot.packet)


def run_model(ct, text, out):
    """compares; -> (violation class, message) or None, number of operations"""
    parts = out.split('|')
    a, b = Slot(ct), Slot(ct)
    a_, n = parts[0], 0
    string = ct.kind == 'string'
    op = 'initial'
    try:
        if not same_state(ct, a, parse_state(ct, a_)):
            return 'initial', 'a new container is not empty: ' + a_[:100], 0
        for op, res in zip(text.split(' '), parts[1:]):
            n += 1
            f = res.split('/')
            if len(f) != 3:
                return 'output', 'unreadable ' + res[:100], n
            sa, sb = parse_state(ct, f[1]), parse_state(ct, f[2])
            k, arg = op[0], op[1:]
            note = f[0]
            adopt_a = adopt_b = None

            def data():
                return bytes.fromhex(arg.split(':', 1)[1])
            if k in ('pvd=' if not string else 'dv'):
                ok = accepts(ct, data())
                if k in 'pv':
                    a = Slot(ct)
                if k == 'd' and note != ('1.' if ok else '0.'):
                    return 'decode', 'decoding %s is reported as %s' % (data().hex()[:200], note), n
                if ok and ct.kind == 'small':
                    a.set(ok[1])
                elif ok:
                    a.set(ok[1], ok[0])
                elif sa[0] is None:
                    a.set(None, b'')
                elif sa[0] == b'' and not same_state(ct, a, sa) and ct.kind != 'generic':
                    a.set(b'', sa[1])  # emptied
            elif k in 'Hh' and not string:
                con, cls, tag, d = arg.split(':', 3)
                d = bytes.fromhex(d.split(':')[1])
                a.set(d, ber.tlv(int(cls), int(con), int(tag), d))
            elif k in ('anoO' if not string else 'ab12345678qQuy'):
                a.set(data())
                if note:
                    return 'source', note, n
            elif k == 'r':
                size = int(arg[:-1])
                old = a.content or b''
                if sa[0] is None or len(sa[0]) != size:
                    return 'resize', 'resizing to %d gives %s octets' % (size, 'no' if sa[0] is None else len(sa[0])), n
                keep = min(size, len(old))
                if sa[0][:keep] != old[:keep]:
                    return 'resize', 'resizing from %d to %d octets changes the content they share' % (len(old), size), n
                if ct.kind == 'generic':
                    t = parse63(a.packet) if a.packet else None
                    idl = a.packet[:t.tlen] if t else b'\0'
                    a.set(sa[0], idl + ber.length(size) + sa[0])
                else:
                    a.set(sa[0])
            elif k == 'w':
                pos, x = [int(v) for v in arg[:-1].split(':')]
                c = a.content or b''
                if (pos < len(c)) != (note == 'w.'):
                    return 'write', 'the content has another size', n
                if pos < len(c):
                    h = len(c) - pos
                    a.set(c[:pos] + bytes([x]) + c[pos + 1:], a.packet[:len(a.packet) - h] + bytes([x]) + a.packet[len(a.packet) - h + 1:])
            elif k == 'f':
                if a.content is not None:
                    c = bytes([int(arg[:-1])]) * len(a.content)
                    a.set(c, a.packet[:len(a.packet) - len(c)] + c)
            elif k in 'cC':
                a = b.copy()
                # a copy may be written with a minimal header
                if sa[0] == a.content and ct.kind != 'generic':
                    a.packet = sa[1]
            elif k in 'mM':
                a = b.copy()
                if sa[0] == a.content and ct.kind != 'generic':
                    a.packet = sa[1]
                if ct.kind == 'generic' or True:
                    b.content, b.packet = sb  # unspecified but consistent
            elif k == 's':
                pass
            elif k == 'S':
                # self-move: unchanged or what any moved-from container is
                if not same_state(ct, a, sa):
                    a.content, a.packet = sa
            elif k in 'xX':
                a, b = b, a
                for s, st in ((a, sa), (b, sb)):
                    if st[0] == s.content and ct.kind != 'generic':
                        s.packet = st[1]
            elif k == '?':
                eq = (a.content == b.content)
                want = '1.0.' if eq else '0.1.'
                if string:
                    reps = 4 if b'\0' not in (b.content or b'') else 3
                    want = want * reps
                if ct.kind != 'generic' and note != want:
                    return 'compare', 'comparing equal=%s reports %s' % (eq, note), n
            for who, s, st in (('the container', a, sa), ('the other container', b, sb)):
                if not same_state(ct, s, st):
                    return '%s:%s' % (k, 'content' if st[0] != s.content else 'packet'), '%s holds content %s packet %s instead of content %s packet %s' % (
                        who, 'none' if st[0] is None else st[0].hex()[:120], st[1].hex()[:120], 'none' if s.content is None else s.content.hex()[:120], s.packet.hex()[:120]), n
    except Bad as e:
        return '%s:inconsistent' % op[0], str(e), n
    if n != len(text.split(' ')):
        return 'output', 'not all operations were reported', n
    return None


def container_types(rng, per):
    out = [CT('ber', 'BerContainer', 'generic', [])]
    nat = (ber.UNIV, 4)
    for i, tags in enumerate(builtin.taggings(rng, nat, per)):
        out.append(CT('fixed%d' % i, 'FixedIdBerContainer<%s>' % builtin.id_cpp(tags), 'fixed', tags))
        lim = rng.choice([0, 1, 2, 9, 20, 100])
        room = 127
        for c, n in tags[1:]:
            room -= len(ber.ident(c, 0, n)) + 1
        out.append(CT('small%d' % i, 'SmallFixedIdBerContainer<%s, %d>' % (builtin.id_cpp(tags), min(lim, room)), 'small', tags, min(lim, room)))
        out.append(CT('smallest%d' % i, 'SmallFixedIdBerContainer<%s, %d>' % (builtin.id_cpp(tags), room), 'small', tags, room))
        kind = rng.choice(['OctetString', 'IA5String', 'UTF8String', 'BMPString', 'VisibleString', 'PrintableString'])
        out.append(CT('str%d' % i, '%s<%s>' % (kind, builtin.id_cpp(tags)), 'string', tags))
    return out


def c16(chk):
    chk.rule = 'distinct scripts of at least two operations on a pair of containers of one type, compared with a byte-string model after every operation'
    chk.assumptions = ['spans given to assign do not lie inside the container itself; SmallFixedIdBerContainers hold at most 127 content octets; octets added by growing are unspecified; '
                       'a container moved from, or whose decoding failed, holds anything consistent; header octets of copies of FixedIdBerContainers may be rewritten minimally']
    rng = rng_for('C16')
    cts = container_types(rng, scale(5, 12))
    full = CT('full', 'SmallFixedIdBerContainer<Id<Class::universal, 4>, 128>', 'small', [(ber.UNIV, 4)], 128)
    full.group = 'small-of-128'  # its largest content needs two length octets
    cts.append(full)
    exe = content_driver([(ct.name, 'run_string' if ct.kind == 'string' else 'run_container', ct.cpp) for ct in cts], 'containers', header='containers.hpp')
    s = Simple(exe, cts)
    s.label = 'containers'
    by = {c.name: c for c in cts}

    def judge(cases):
        lines = ['X %s %s' % (ct.name, tx) for ct, tx in cases]
        for (ct, tx), line, r in zip(cases, lines, drv.run(exe, lines, 'containers')):
            chk.case(1, line if tx.count(' ') else None)
            if wire.broken(chk, s, ct, line, r, 'container'):
                continue
            bad = run_model(ct, tx, r.out)
            if bad:
                cls, msg, n = bad
                short = ' '.join(tx.split(' ')[:n]) if n else tx
                chk.violation('container:%s:%s' % (ct.kind, cls), '%s after %s: %s' % (ct.cpp, short[:400], msg), wire.replay(s, ct, 'X %s %s' % (ct.name, short)))
                continue
            chk.event('scripts on %s containers' % ct.kind)
            chk.event('operations', tx.count(' ') + 1)
            if len(line) < 120 and rng.random() < .01:
                chk.sample(line + ' -> ' + r.out[:300])

    def part(n):
        judge([(ct, script(rng, ct)) for i in range(n) for ct in [cts[i % len(cts)]] if ct is not full])
    if chk.replaying is not None:
        f = chk.replaying['case'].split(' ', 2)
        return judge([(by[f[1]], f[2])])
    judge([(full, 'a128:' + '61' * 128), (full, 'a127:' + '61' * 127), (full, 'a3:616263 r127:')])
    repeat(chk, part, scale(40000, 1000000), 20000)
