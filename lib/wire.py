"""Cases and judges for types on the wire; used with the run-time library's own types and with generated ones."""
from lib import ber, drv, model, values
from lib.model import ABSENT, CANON, Variant


class Suite:
    """types (objects with .name .w .group .desc) that one driver executable knows"""

    def __init__(self, exe, types, label, env=None):
        self.exe, self.types, self.label, self.env = exe, types, label, env


def chosen(chk, suite, cases, line_of):
    """when replaying, only the case of the replay file"""
    if chk.replaying is None:
        return cases
    return [c for c in cases if suite.label == chk.replaying.get('suite') and line_of(c) == chk.replaying.get('case')]


def cut(s, n=400):
    return s if len(s) <= n else s[:n] + '...(%d)' % len(s)


def replay(suite, t, line, extra=None):
    r = {'suite': suite.label, 'type': t.name, 'definition': t.desc, 'case': line if len(line) < 200000 else line[:200000]}
    if extra:
        r.update(extra)
    return r


def broken(chk, suite, t, line, r, where):
    """crash, hang or escaped exception -> a violation; True when the case is settled"""
    if r is None:
        chk.inconclusive += 1
        return True
    if r.kind == 'ok':
        return False
    if r.kind == 'bad':
        # the harness refused the value text: an accepted-value problem of the library's setters
        chk.violation('%s:%s:refused' % (where, t.group), '%s refused %s: %s' % (t.desc, cut(line), r.out), replay(suite, t, line))
        return True
    what = drv.summarize(r.report) if r.kind == 'crash' else r.kind
    key = '%s:%s:%s:%s' % (where, t.group, r.kind, crash_class(r))
    chk.violation(key, '%s %s on %s: %s' % (t.desc, r.kind, cut(line), what or r.out), replay(suite, t, line, {'report': r.report[:6000]}))
    return True


def crash_class(r):
    import re
    m = re.search(r'AddressSanitizer: ([a-zA-Z-]+)', r.report)
    if m:
        return m.group(1)
    m = re.search(r'ThreadSanitizer: ([a-z -]+)', r.report)
    if m:
        return m.group(1).strip().replace(' ', '-')
    m = re.search(r'==\d+== ((?:Conditional jump|Use of uninit|Invalid [a-z]+|Syscall param|Mismatched free|Jump to the)[a-z]*)', r.report)
    if m:
        return 'valgrind-' + m.group(1).replace(' ', '-').lower()
    m = re.search(r'runtime error: ([a-z ]+)', r.report)
    if m:
        return m.group(1).strip().replace(' ', '-')[:40]
    if 'Assertion' in r.report:
        return 'assertion'
    if 'terminate called' in r.report:
        return 'terminate'
    return re.sub('[^A-Za-z]+', '-', r.out)[:24]


# ---------------------------------------------------------------- encoding
def gen_encode(suite, rng, n, big=.003, grow=None):
    out = []
    for i in range(n):
        t = suite.types[i % len(suite.types)] if i < 3 * len(suite.types) else rng.choice(suite.types)
        v = values.gen(t.w, rng, big=big)
        out.append((t, v, 'E %s %d %s' % (t.name, rng.randint(1, 60), model.text(t.w, v))))
    return out


def fields(s):
    return dict(x.split('=', 1) for x in s.split(' ') if '=' in x)


def run_encode(chk, suite, cases, judge, where='encode'):
    cases = chosen(chk, suite, cases, lambda c: c[2])
    if not cases:
        return
    rs = drv.run(suite.exe, [c[2] for c in cases], name=suite.label.replace('/', '_') + '-E', env=suite.env)
    for (t, v, line), r in zip(cases, rs):
        chk.case(nontrivial=(t.desc, line) if values.nontrivial(t.w, v) else None)
        if broken(chk, suite, t, line, r, where):
            continue
        judge(chk, suite, t, v, line, fields(r.out), r.out)


def judge_buffer(chk, suite, t, v, line, f, raw):
    """C02"""
    probs = []
    L = int(f['L']) if 'L' in f else -1
    if 'absurd' in raw or 'hex' not in f:
        probs.append(('absurd-length', 'encoded_length is %s' % f.get('L')))
    else:
        if f['r'] != '1,%d' % L:
            probs.append(('exact-buffer', 'with a buffer of exactly encoded_length()=%d bytes encode returned success,length=%s' % (L, f['r'])))
        if f['spare'] != 'ok':
            probs.append(('spare-' + f['spare'].split('+')[0], 'with spare space: ' + f['spare']))
        if f['small'] != 'ok':
            probs.append(('small-accepted', 'a buffer of %s bytes was accepted, encoded_length()=%d' % (f['small'], L)))
        if 'null' in f:
            probs.append(('null-buffer', 'no buffer at all: wrong result'))
        chk.event('buffer sizes tried', 6 + min(L, 64))
        chk.event('bytes encoded', L)
    for k, what in probs:
        chk.violation('%s:%s:%s' % (suite.kind, t.group, k), '%s value %s: %s' % (t.desc, cut(line), what), replay(suite, t, line))


def same_value(w, v, dump):
    """-> None or a reason"""
    try:
        got = model.parse_value(w, dump)
    except (ValueError, IndexError) as e:
        return 'unreadable value %s (%s)' % (cut(dump), e)
    if not model.equal(w, v, got):
        return 'value %s instead of %s' % (cut(model.text(w, got, True)), cut(model.text(w, v, True)))
    return None


def judge_bytes(chk, suite, t, v, line, f, raw):
    """C03, C06"""
    if 'hex' not in f:
        chk.violation('%s:%s:absurd-length' % (suite.kind, t.group), '%s value %s: encoded_length %s' % (t.desc, cut(line), f.get('L')), replay(suite, t, line))
        return
    e = model.match(t.w, v, bytes.fromhex(f['hex']))
    if f['r'].split(',')[0] != '1':
        e = 'encode failed'
    chk.event('encodings compared with X.690')
    if e:
        chk.violation('%s:%s:encoding' % (suite.kind, t.group), '%s value %s encodes to %s: %s' % (t.desc, cut(line), cut(f['hex']), e),
                      replay(suite, t, line, {'expected': model.encode(t.w, v).hex(), 'got': f['hex']}))
    e = same_value(t.w, v, f['dump'])
    if e:
        chk.violation('%s:%s:stored-value' % (suite.kind, t.group), '%s set to %s reads back as %s' % (t.desc, cut(line), e), replay(suite, t, line))


# ---------------------------------------------------------------- decoding
def flat_default(d):
    return d


def junk(rng):
    return rng.choice([b'\0', b'\xff\xff', b'\x30\x80', b'\x02\x01\x05', bytes(rng.getrandbits(8) for _ in range(rng.randint(1, 20)))])


def gen_valid(suite, rng, n, big=.002):
    """valid encodings, using BER's freedom -> (t, v, bytes, total)"""
    out = []
    for i in range(n):
        t = suite.types[i % len(suite.types)] if i < 3 * len(suite.types) else rng.choice(suite.types)
        v = values.gen(t.w, rng, big=big)
        f = rng.choice([CANON, Variant(rng), Variant(rng, lengths=False), Variant(rng, orders=False, defaults=False)])
        b = model.encode(t.w, v, f)
        tail = junk(rng) if rng.random() < .25 else b''
        out.append((t, v, b + tail, len(b)))
    return out


def gen_mutated(suite, rng, n, big=0):
    out, pool = [], []
    for i in range(n):
        t = suite.types[i % len(suite.types)] if i < 4 * len(suite.types) else rng.choice(suite.types)
        r = rng.random()
        if r < .06 and pool:
            b = rng.choice(pool)  # an encoding of another type
        else:
            v = values.gen(t.w, rng, depth=rng.choice([0, 0, 2]), big=big)
            b = model.encode(t.w, v, rng.choice([CANON, CANON, Variant(rng)]))
            if len(pool) < 300:
                pool.append(b)
            if r < .5:
                b = values.mutate(rng, b, pool)
            elif r < .97:
                b = values.restructure(rng, b)
                if rng.random() < .15:
                    b = values.restructure(rng, b)
        out.append((t, b))
    return out


def gen_truncated(suite, rng, per=1, limit=120):
    out = []
    for t in suite.types:
        for _ in range(per):
            v = values.gen(t.w, rng, depth=3)
            b = model.encode(t.w, v, rng.choice([CANON, Variant(rng)]))
            for n in sorted(set(range(min(len(b), 24))) | {len(b) - 1, len(b) - 2, len(b) // 2} if len(b) < limit else {0, 1, 2, 3, len(b) - 1, len(b) // 2}):
                if 0 <= n < len(b):
                    out.append((t, b[:n]))
    return out


def gen_hostile(suite, rng, per):
    """headers made to overflow, deep nesting, huge lengths, random octets"""
    out = []
    for t in suite.types:
        outer = sorted(t.w.outer())
        for i in range(per):
            c, n = rng.choice(outer)
            con = rng.randint(0, 1)
            k = i % 6
            if k == 0:
                b = bytes(rng.getrandbits(8) for _ in range(rng.randint(0, 40)))
            elif k == 1:
                b = ber.ident(c, con, n) + rng.choice([b'\x80', b'\xff', b'\x84\xff\xff\xff\xff', b'\x88' + b'\xff' * 8, b'\x89' + b'\0' * 8, b'\x88\x7f' + b'\xff' * 7,
                                                       b'\x88\x80' + b'\0' * 7, b'\x87' + b'\xff' * 7, b'\xff' + b'\xff' * 127, b'\x88' + (2**64 - rng.randint(1, 40)).to_bytes(8, 'big')]) + junk(rng)
            elif k == 2:
                b = bytes([c << 6 | con << 5 | 31]) + bytes([rng.choice([0x80, 0xff, 0x81])]) * rng.choice([0, 1, 5, 8, 9, 10, 11, 20]) + rng.choice([b'', b'\0', b'\x7f']) + junk(rng)
            elif k == 3:
                b = b'\5'
                for _ in range(rng.choice([3, 20, 60])):
                    x, m = rng.choice(outer)
                    b = ber.tlv(x, 1, m, b)
            elif k == 4:
                inner = bytes(rng.getrandbits(8) for _ in range(rng.choice([0, 1, 2, 8, 9, 20, 127, 128, 300])))
                for x, m in reversed(t.w.tags or outer[:1]):
                    inner = ber.tlv(x, rng.randint(0, 1), m, inner)
                b = inner
            else:
                b = model.encode(t.w, values.gen(t.w, rng, depth=2))
                p = rng.randint(0, len(b))
                b = b[:p] + rng.choice([b'\xff' * 9, b'\0' * 9, b'\x1f' * 9, b'\x80' * 9]) + b[p:]
            out.append((t, b))
    return out


def gen_wrong_tags(suite, rng, per):
    """otherwise valid encodings with one identifier octet field changed, at each tagging level"""
    out = []
    for t in suite.types:
        for _ in range(per):
            v = values.gen(t.w, rng, depth=3)
            w = t.w
            if w.kind == 'choice':
                b = values.restructure(rng, model.encode(w, v))
                out.append((t, b))
                continue
            body = model.contents(w, v)
            lvl = rng.randrange(len(w.tags))
            con = w.constructed()
            what = rng.choice(['class', 'num', 'form', 'num'])
            for i in reversed(range(len(w.tags))):
                c, n = w.tags[i]
                f = int(con or i < len(w.tags) - 1)
                if i == lvl:
                    if what == 'class':
                        c = (c + rng.randint(1, 3)) % 4
                    elif what == 'form':
                        f ^= 1
                    else:
                        n = rng.choice([n + 1, max(0, n - 1), n ^ 1, n ^ 32, n ^ 0x80, n & 0x7f, n & 0x1f, n & 0xffffffff, n + 128, n ^ (1 << rng.randint(0, 34)), n + 2**32])
                body = ber.tlv(c, f, n, body)
            out.append((t, body))
    return out


def run_decode(chk, suite, inputs, judge, where='decode', **kw):
    """inputs: (t, bytes)"""
    inputs = chosen(chk, suite, inputs, lambda c: 'D %s %s' % (c[0].name, c[1].hex()))
    if not inputs:
        return
    lines = ['D %s %s' % (t.name, b.hex()) for t, b in inputs]
    rs = drv.run(suite.exe, lines, name=suite.label.replace('/', '_') + '-D', env=suite.env, **kw)
    for (t, b), line, r in zip(inputs, lines, rs):
        chk.case(nontrivial=(t.desc, b) if len(b) > 2 else None)
        if broken(chk, suite, t, line, r, where):
            continue
        acc = r.out[0] == '1'
        chk.event('accepted' if acc else 'refused')
        rest = r.out[2:].split(' ')
        judge(chk, suite, t, b, line, acc, rest[0] if acc else None, rest[1] if acc and len(rest) > 1 else None)


def gen_fuzzed(chk, suite, rng, seconds):
    """inputs that a coverage-guided search (the suite was built with fuzz) kept as interesting or found to crash"""
    import os
    from lib import build, report
    ts = sorted(suite.types, key=lambda t: t.name.encode())
    index = {t.name: i for i, t in enumerate(ts)}

    def tag(t):
        return bytes([index[t.name] >> 8, index[t.name] & 255])
    seeds = [tag(t) + b for t, b in gen_truncated(suite, rng, 1)[::7]] + [tag(t) + b for t, v, b, k in gen_valid(suite, rng, 3 * len(ts)) if len(b) < 1000]
    n, kept = build.fuzz(suite.exe + '-fuzz', seeds, seconds, report.seed(), options=['-max_len=600', '-timeout=20'], name='fuzz-' + suite.label.replace('/', '_'))
    chk.event('executions under libFuzzer', n)
    chk.event('inputs kept by libFuzzer', len(kept))
    return [(ts[(b[0] * 256 + b[1]) % len(ts)], b[2:]) for _, b in kept if len(b) > 2]


def judge_reencode(chk, suite, t, v, line, re):
    """the re-encoding of a decoded value denotes the same value"""
    if re is None or re.startswith('!'):
        return 're-encoding the decoded value fails'
    b = bytes.fromhex(re)
    k, got = model.decode(t.w, b)
    if k == 'reject':
        return 're-encodes to %s which is no encoding of the type (%s)' % (cut(re), got)
    if got is not None and not model.equal(t.w, v, got):
        return 're-encodes to %s which denotes another value' % cut(re)
    p = ber.parse(b)
    if p is None or p.total != len(b):
        return 're-encoding %s has %d extra octets' % (cut(re), len(b) - (p.total if p else 0))
    return None


def judge_accept(chk, suite, t, b, line, acc, dump, re):
    """C04, C07: whatever is clearly valid is accepted with its value"""
    kind, v = model.decode(t.w, b)
    chk.event('reference says ' + kind)
    if kind != 'accept':
        return
    if not acc:
        chk.violation('%s:%s:valid-refused' % (suite.kind, t.group), '%s refuses the valid encoding %s of %s' % (t.desc, cut(b.hex()), cut(model.text(t.w, v, True))),
                      replay(suite, t, line))
        return
    e = same_value(t.w, v, dump)
    if e:
        chk.violation('%s:%s:wrong-value' % (suite.kind, t.group), '%s decodes %s to %s' % (t.desc, cut(b.hex()), e), replay(suite, t, line))
        return
    e = judge_reencode(chk, suite, t, v, line, re)
    if e:
        chk.violation('%s:%s:re-encoding' % (suite.kind, t.group), '%s decodes %s, then %s' % (t.desc, cut(b.hex()), e), replay(suite, t, line))


def reason_class(s):
    import re
    s = re.sub(r'component \S+ missing', 'component missing', s)
    s = re.sub(r'tag \(.*', 'tag', s)
    return s.replace(' ', '-')


def judge_reject(chk, suite, t, b, line, acc, dump, re):
    """C05, C08: nothing is accepted that is not an encoding, or with a value it does not denote"""
    kind, v = model.decode(t.w, b)
    chk.event('reference says ' + kind)
    if not acc:
        return
    if kind == 'reject':
        chk.violation('%s:%s:accepted:%s' % (suite.kind, t.group, reason_class(v)), '%s accepts %s as %s although: %s' % (t.desc, cut(b.hex()), cut(dump), v), replay(suite, t, line))
    elif v is not None or (kind == 'accept' and t.w.kind == 'null'):
        e = same_value(t.w, v, dump)
        if e:
            chk.violation('%s:%s:wrong-value' % (suite.kind, t.group), '%s decodes %s to %s' % (t.desc, cut(b.hex()), e), replay(suite, t, line))


def judge_safe(chk, suite, t, b, line, acc, dump, re):
    """C01: having returned at all was the point"""


# ---------------------------------------------------------------- history
def gen_history(suite, rng, n):
    out = []
    for i in range(n):
        t = suite.types[i % len(suite.types)] if i < 3 * len(suite.types) else rng.choice(suite.types)
        segs = []

        def enc():
            v = values.gen(t.w, rng)
            b = model.encode(t.w, v, rng.choice([CANON, Variant(rng)]))
            return b

        for _ in range(rng.randint(1, 6)):
            r = rng.random()
            if r < .3:
                segs.append('a' + model.text(t.w, values.gen(t.w, rng)))
            elif r < .55:
                segs.append('d' + enc().hex())
            elif r < .75:
                segs.append('d' + values.mutate(rng, enc()).hex())
            else:
                segs.append(rng.choice('cmsx'))
        b = enc()
        r = rng.random()
        if r < .12:
            b = values.mutate(rng, b)
        elif r < .25:
            b = values.restructure(rng, b)
        segs.append('d' + b.hex())
        out.append((t, b, 'H %s %s' % (t.name, ' '.join(segs))))
    return out


def run_history(chk, suite, cases, judge=True):
    """C12"""
    cases = chosen(chk, suite, cases, lambda c: c[2])
    if not cases:
        return
    rs = drv.run(suite.exe, [c[2] for c in cases], name=suite.label.replace('/', '_') + '-H', env=suite.env)
    for (t, b, line), r in zip(cases, rs):
        chk.case(nontrivial=line)
        if broken(chk, suite, t, line, r, 'history'):
            continue
        if not judge:
            continue
        parts = r.out.split(' | ')

        def v(key, what):
            chk.violation('%s:%s:%s' % (suite.kind, t.group, key), '%s: %s; steps %s; observed %s' % (t.desc, what, cut(line, 800), cut(r.out, 600)), replay(suite, t, line))
        used, fresh = parts[0].split(' '), parts[1].split(' ')
        chk.event('decodes after a history')
        if used[0] != fresh[0]:
            v('outcome', 'decoding into a used object %s, into a fresh one %s' % tuple('succeeds' if x == '1' else 'fails' for x in (used[0], fresh[0])))
            continue
        if fresh[0] != '1':
            continue
        chk.event('successful decodes compared with a fresh object')
        if used[1] != fresh[1]:
            v('value', 'a used object ends up with another value than a fresh one')
        elif used[2:3] != fresh[2:3]:
            v('re-encoding', 'a used object re-encodes differently from a fresh one')
        g = parts[2].split(' ')
        kind, val = model.decode(t.w, b)
        if kind == 'unspec':
            continue  # e.g. contents the type carries opaquely; the fixed point is asserted for real values
        if g[0] != '1':
            v('fixed-point', 'the re-encoding of a decoded value does not decode')
        else:
            if norm_default(g[1]) != norm_default(fresh[1]):
                v('fixed-point', 're-encoding and decoding changes the value')
            elif g[2] != fresh[2]:
                v('fixed-point', 're-encoding is not a fixed point')
        if g[3] == '0' and not has_nan(t.w, val):
            v('equality', 'two objects decoded from the same input do not compare equal')


def norm_default(s):
    return s


def has_nan(w, v):
    if v is ABSENT or v is None:
        return False
    k = w.kind
    if k == 'real':
        return ber.real_canon(v) == ber.NAN_BITS
    if k in ('seq', 'set'):
        return any(has_nan(m.w, x) for m, x in zip(w.members, v))
    if k in ('seqof', 'setof'):
        return any(has_nan(w.elem, x) for x in v)
    if k == 'choice':
        return has_nan(w.alts[v[0]].w, v[1])
    return False


def cmp_equal(w, a, b):
    """what operator== has to say; None when undetermined"""
    if has_nan(w, a) or has_nan(w, b):
        return None
    return eq(w, a, b)


def eq(w, a, b):
    if a is ABSENT or b is ABSENT:
        return a is b
    k = w.kind
    if k == 'real':
        import struct
        x, y = (struct.unpack('>d', struct.pack('>Q', ber.real_canon(z)))[0] for z in (a, b))
        return x == y
    if k == 'time':
        return time_instant(a) == time_instant(b)
    if k in ('seq', 'set'):
        return all(eq(m.w, x, y) for m, x, y in zip(w.members, a, b))
    if k in ('seqof', 'setof'):
        return len(a) == len(b) and all(eq(w.elem, x, y) for x, y in zip(a, b))
    if k == 'choice':
        return a[0] == b[0] and eq(w.alts[a[0]].w, a[1], b[1])
    return a == b


def time_instant(v):
    return v[1]


def gen_value(suite, rng, n):
    out = []
    for i in range(n):
        t = suite.types[i % len(suite.types)] if i < 3 * len(suite.types) else rng.choice(suite.types)
        a = values.gen(t.w, rng, big=.002)
        b = a if rng.random() < .15 else tweak(t.w, a, rng) if rng.random() < .4 else values.gen(t.w, rng, big=.002)
        out.append((t, a, b, 'V %s %s %s' % (t.name, model.text(t.w, a), model.text(t.w, b))))
    return out


def tweak(w, v, rng):
    """change one leaf only"""
    if v is ABSENT:
        return v
    k = w.kind
    if k in ('seq', 'set') and v:
        i = rng.randrange(len(v))
        r = list(v)
        m = w.members[i]
        if m.opt == 'opt' and (v[i] is ABSENT or rng.random() < .3):
            r[i] = values.gen(m.w, rng, 3) if v[i] is ABSENT else ABSENT
        else:
            r[i] = tweak(m.w, v[i], rng)
        return r
    if k in ('seqof', 'setof') and v:
        i = rng.randrange(len(v))
        r = list(v)
        if rng.random() < .3:
            r.pop(i)
        else:
            r[i] = tweak(w.elem, v[i], rng)
        return r
    if k == 'choice':
        return (v[0], tweak(w.alts[v[0]].w, v[1], rng))
    if k == 'str' and v and w.sub != 'BitString':
        i = rng.randrange(len(v))
        return v[:i] + bytes([v[i] ^ 1]) + v[i + 1:]
    if k == 'oid' and len(v) > 2:
        return v[:-1] + (v[-1] ^ 1,)
    if k == 'real':
        return ber.real_canon(v ^ 1)
    return values.gen(w, rng, 3)


def run_value(chk, suite, cases):
    """C13"""
    cases = chosen(chk, suite, cases, lambda c: c[3])
    if not cases:
        return
    rs = drv.run(suite.exe, [c[3] for c in cases], name=suite.label.replace('/', '_') + '-V', env=suite.env)
    for (t, a, b, line), r in zip(cases, rs):
        chk.case(nontrivial=line)
        if broken(chk, suite, t, line, r, 'value'):
            continue
        f = r.out.split(' ')

        def v(key, what):
            chk.violation('%s:%s:%s' % (suite.kind, t.group, key), '%s: %s; %s; observed %s' % (t.desc, what, cut(line, 600), cut(r.out, 600)), replay(suite, t, line))
        for x in f:
            if x.startswith('BAD:'):
                v(x[4:], 'value semantics broken: ' + x[4:])
        chk.event('facts about copies, moves and ownership', 21)
        want = cmp_equal(t.w, a, b)
        q = f[0][3:]
        if q[0] != '2' and want is not None:
            chk.event('comparisons')
            if q[0] != str(int(want)) or q[1] != q[0]:
                v('equality', 'operator== says %s%s for values that are %s' % (q[0], q[1], 'equal' if want else 'different'))
            if q[2] != '1':
                v('equality-self', 'a value does not equal itself')
        d = next(x for x in f if x.startswith('dump='))[5:]
        e = same_value(t.w, a, d) or same_value(t.w, b, f[f.index('dump=' + d) + 1])
        if e:
            v('stored-value', e)
