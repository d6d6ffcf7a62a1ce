"""C09 REAL, C10 OBJECT IDENTIFIER, C11 times: the contents, through every accessor."""
import os, struct
from fractions import Fraction
from lib import ber, builtin, drv, build, model, values, wire
from lib.checks.wire_checks import builtin_suite, repeat, rng_for, scale, STEP
from lib.model import W


# ---------------------------------------------------------------- REAL
def minimal_exp(e):
    return ber.enc_int(e)


def real_binary(rng):
    """valid binary contents"""
    base = rng.randint(0, 2)
    f = rng.choice([0, 0, 1, 2, 3])
    sign = rng.randint(0, 1)
    ml = rng.choice([1, 1, 2, 3, 4, 6, 7, 8, 8, 9, 10, 12, 20, 60])
    m = rng.choice([rng.getrandbits(8 * ml), (1 << (8 * ml)) - 1, 1, 1 << (8 * ml - 1), (1 << 53) + 1, (1 << 53) - 1, ((1 << 53) + 1) << 10, (((1 << 53) + 1) << 11) | 1, (1 << 64) - 1,
                    (1 << 63) | (1 << 10), (1 << 63) | (1 << 10) | 1, (1 << 63) | (3 << 10)])
    m = max(m, 1)
    scale_ = {0: 1, 1: 3, 2: 4}[base]
    r = rng.random()
    if r < .5:
        top = rng.randint(-1085, 1030)  # exponent of the leading bit of the value
        e = (top - m.bit_length() - f) // scale_
    elif r < .7:
        e = rng.choice([-1074, -1075, -1076, -1022, -1023, 971, 970, 1023, 1024, 0, -1, 1, 127, 128, -128, -129, 32767, 32768, -32768, -32769, 8388607, -8388608]) // rng.choice([1, scale_])
    else:
        e = rng.randint(-200, 200)
    ex = minimal_exp(e)
    if rng.random() < .15 and len(ex) < 3:
        ex = (b'\xff' if e < 0 else b'\0') + ex  # sign extended; allowed in the one to three octet forms
    if rng.random() < .03:
        ex = rng.choice([b'\x7f', b'\x80']) + bytes(rng.getrandbits(8) for _ in range(rng.choice([3, 4, 7, 8, 9, 20])))
    if len(ex) <= 3 and not (len(ex) > 1 and False) and rng.random() < .85:
        head = bytes([0x80 | sign << 6 | base << 4 | f << 2 | (len(ex) - 1)]) + ex
    else:
        ex = minimal_exp(e) if len(ex) <= 4 else ex
        head = bytes([0x80 | sign << 6 | base << 4 | f << 2 | 3, len(ex)]) + ex
    mb = m.to_bytes((m.bit_length() + 7) // 8 + rng.choice([0, 0, 0, 1, 3]), 'big')
    return (head + mb)[:100]


def real_decimal(rng):
    nr = rng.randint(1, 3)
    digs = lambda lo, hi: ''.join(rng.choice('0123456789') for _ in range(rng.randint(lo, hi)))
    s = ' ' * rng.choice([0, 0, 0, 1, 3]) + rng.choice(['', '', '+', '-'])
    if nr == 1:
        s += digs(1, rng.choice([1, 5, 20, 30]))
    else:
        a = digs(0, rng.choice([1, 3, 18, 25]))
        s += a + rng.choice('.,') + digs(0 if a else 1, rng.choice([1, 3, 18, 25]))
        if nr == 3:
            s += rng.choice('Ee') + rng.choice(['', '+', '-']) + str(rng.choice([0, 1, 5, 22, 23, 100, 290, 300, 308, 309, 320, 324, 330, rng.randint(0, 340), 4000]))
    return bytes([nr]) + s.encode()


def real_invalid(rng):
    """contents that are clearly no REAL"""
    k = rng.randint(0, 7)
    rb = lambda n: bytes(rng.getrandbits(8) for _ in range(n))
    if k == 0:
        return bytes([0xB0 | rng.randint(0, 15) | rng.choice([0, 0x40])]) + rb(rng.randint(1, 12))  # reserved base
    if k == 1:
        return bytes([0x80 | rng.choice([0, 0x40]) | rng.choice([0, 0x10, 0x20]) | rng.randint(0, 3)])  # no exponent
    if k == 2:
        n = rng.randint(1, 3)
        return bytes([0x80 | rng.choice([0, 0x40]) | (n - 1)]) + rb(rng.randint(1, n))  # exponent truncated or no mantissa
    if k == 3:
        n = rng.choice([0, 5, 50, 127, 128, 255])
        return bytes([0x83, n]) + rb(min(n, rng.randint(0, 40)))
    if k == 4:
        return bytes([rng.choice([0x44, 0x50, 0x60, 0x7f])])
    if k == 5:
        return bytes([rng.choice([0x40, 0x41, 0x42, 0x43])]) + rb(rng.randint(1, 5))
    if k == 6:
        return bytes([rng.choice([0, 4, 5, 0x3f, 0x10])]) + b'12.5'
    return bytes([rng.randint(1, 3)]) + rng.choice([b'', b' ', b'+', b'-', b'.', b'1e', b'abc', b'1..2', b'--1', b'1.0E', b'0x10', b'nan', b'inf', b'1 2', b'12.5\0', b'1,2,3', b'E5', b'.E5', b'+ 1'])


def c09(chk):
    chk.rule = 'distinct doubles other than +0 (assigned, encoded, decoded) and distinct REAL contents of more than one octet (decoded)'
    rng = rng_for('C09')
    s = builtin_suite(rng, 'ED', kinds=('real',), per=scale(6, 20))
    s.label = 'builtin'

    def doubles(n):
        out = []
        for i in range(n):
            t = rng.choice(s.types)
            v = values.DOUBLES[i % len(values.DOUBLES)] if n >= len(values.DOUBLES) and i < 2 * len(values.DOUBLES) else values.real(rng)
            out.append((t, v, 'E %s 3 r%016x;' % (t.name, v)))
        wire.run_encode(chk, s, out, wire.judge_bytes)
        # the receiver's side: what an independent encoder writes for it
        wire.run_decode(chk, s, [(t, model.encode(t.w, v)) for t, v, _ in out], wire.judge_accept)

    def contents(n):
        ins = []
        for i in range(n):
            t = rng.choice(s.types)
            k = rng.random()
            c = real_binary(rng) if k < .5 else real_decimal(rng) if k < .8 else bytes([rng.choice([0x40, 0x41, 0x42, 0x43])]) if k < .82 else b'' if k < .825 else real_invalid(rng)
            b = c
            for j, (cl, nu) in enumerate(reversed(t.w.tags)):
                b = ber.tlv(cl, 1 if j else 0, nu, b)
            ins.append((t, b, c))
        by = {(t.name, b): c for t, b, c in ins}

        def judge(chk, suite, t, b, line, acc, dump, re):
            wire.judge_accept(chk, suite, t, b, line, acc, dump, re)
            c = by.get((t.name, b))
            if c and ber.dec_real(c) is None and clearly_invalid(c):
                chk.event('clearly invalid contents')
                if acc:
                    chk.violation('builtin:real:invalid-accepted', '%s accepts the contents %s as %s' % (t.desc, c.hex(), dump), wire.replay(suite, t, line))
            elif c:
                chk.event('valid contents' if ber.dec_real(c) is not None else 'borderline contents')
        wire.run_decode(chk, s, [(t, b) for t, b, c in ins], judge)
    repeat(chk, doubles, scale(20000, 800000), STEP)
    repeat(chk, contents, scale(30000, 1500000), STEP)


def clearly_invalid(c):
    """not merely a non-minimal exponent or a zero mantissa"""
    b = c[0]
    if b & 0x80:
        if b & 0x30 == 0x30:
            return True
        el, p = (b & 3) + 1, 1
        if el == 4:
            if len(c) < 2 or c[1] == 0:
                return True
            el, p = c[1], 2
        return p + el >= len(c)
    if b & 0x40:
        return True
    # a decimal text of one form under the number of another is borderline
    return all(ber.dec_real(bytes([n]) + c[1:]) is None for n in (1, 2, 3))


# ---------------------------------------------------------------- OBJECT IDENTIFIER
def content_driver(reg, name, header='content.hpp', plain=()):
    d = build.sub(name)
    src = os.path.join(d, 'reg.cpp')
    with open(src, 'w') as f:
        f.write('#include "%s"\nnamespace fast_ber {\n' % header)
        for i, (n, fn) in enumerate(plain):
            f.write('static vf::Reg vf_plain%d("%s", &vf::%s);\n' % (i, n, fn))
        for i, (n, fn, t) in enumerate(reg):
            f.write('static vf::Reg vf_reg%d("%s", &vf::%s<%s>);\n' % (i, n, fn, t))
        f.write('}\n')
    main = os.path.join(d, 'main.cpp')
    with open(main, 'w') as f:
        f.write('#include "vf_main.cpp"\n')
    jobs, objs = [], []
    for job, o in build.lib_jobs(name + '-lib', ['-O0'] + build.SAN):
        jobs.append(job)
        objs.append(o)
    for sfile in (src, main):
        o = sfile[:-4] + '.o'
        objs.append(o)

        def job(sfile=sfile, o=o):
            ok, err = build.compile_one(sfile, o, ['-O0'] + build.SAN)
            if not ok:
                raise build.HarnessError('driver does not compile: ' + err[-3000:])
        jobs.append(job)
    build.parallel(jobs)
    return build.link(objs, os.path.join(d, 'driver'), build.SAN)


class Simple:
    """a suite whose types carry their own operation"""

    def __init__(self, exe, types):
        self.exe, self.types, self.label, self.kind, self.env = exe, types, 'content', 'content', None


def reg_types(rng, kind, tmpl, fn, per):
    ts = []
    for i, tags in enumerate(builtin.taggings(rng, model.natural_tag(kind), per)):
        t = builtin.T('%s%d' % (kind, i), tmpl % builtin.id_cpp(tags), W(kind, tags), kind)
        t.desc = t.cpp
        ts.append(t)
    return ts


def legal(a):
    return len(a) >= 2 and all(0 <= x < 2**63 for x in a) and a[0] <= 2 and (a[0] == 2 or a[1] < 40) and a[0] * 40 + a[1] < 2**63


def wrap(w, c):
    for j, (cl, nu) in enumerate(reversed(w.tags)):
        c = ber.tlv(cl, 1 if j else 0, nu, c)
    return c


def c10(chk):
    chk.rule = 'distinct arc lists and distinct contents octets (more than one), through assignment, value, number_of_components, component_number, encode and decode'
    rng = rng_for('C10')
    ts = reg_types(rng, 'oid', 'ObjectIdentifier<%s>', 'run_oid', scale(4, 8))
    s = Simple(content_driver([(t.name, 'run_oid', t.cpp) for t in ts], 'content'), ts)

    def arcs_case():
        t = rng.choice(ts)
        r = rng.random()
        a = list(values.oid(rng))
        if r < .2:  # illegal
            k = rng.randint(0, 6)
            if k == 0:
                a = []
            elif k == 1:
                a = a[:1]
            elif k == 2:
                a[0] = rng.choice([3, 4, 100, 2**62, 2**63 - 1])
            elif k == 3:
                a[0], a[1] = rng.randint(0, 1), rng.choice([40, 41, 79, 80, 127, 2**40, 2**63 - 1])
            elif k == 4:
                a[rng.randrange(len(a))] = rng.choice([-1, -128, -2**63])
            elif k == 5:
                a[0], a[1] = 2, 2**63 - 1 - rng.randint(0, 79)
            else:
                a[0] = -1
        elif r < .3:
            a = [rng.randint(0, 2), rng.randint(0, 39)]
        elif r < .4:
            a = [2, rng.choice([0, 39, 40, 47, 48, 79, 80, 81, 127, 128, 999, 2**63 - 81, 2**63 - 82, 16303, 16304])] + [values.arc(rng) for _ in range(rng.randint(0, 3))]
        return t, a, 'A %s %s %s' % (t.name, '.'.join(map(str, a)), '.'.join(map(str, values.oid(rng))) if rng.random() < .3 else '')

    def assign(n):
        cases = wire.chosen(chk, s, [arcs_case() for _ in range(n)], lambda c: c[2])
        if not cases:
            return
        for (t, a, line), r in zip(cases, drv.run(s.exe, [c[2] for c in cases], 'oid')):
            chk.case(nontrivial=(t.name, tuple(a)))
            if wire.broken(chk, s, t, line, r, 'oid'):
                continue

            def v(key, what):
                chk.violation('oid:' + key, '%s %s: %s; observed %s' % (t.desc, a, what, r.out[:600]), wire.replay(s, t, line))
            first, _, second = r.out.partition(' dok=')
            f = dict(x.split('=', 1) for x in first.split(' '))
            if f['free'] != 'ok':
                v('free-function', 'the function %s does otherwise than the type' % f['free'])
            if not legal(a):
                chk.event('illegal arc lists')
                if f['ok'] != '0':
                    v('illegal-accepted', 'assignment of an illegal arc list succeeds')
                continue
            chk.event('legal arc lists')
            if f['ok'] != '1':
                v('legal-refused', 'assignment refused')
                continue
            exp = '.'.join(map(str, a))
            for where, g in (('assigned', f), ('decoded', dict(x.split('=', 1) for x in ('ok=' + second).split(' ')))):
                if g['ok'] != '1':
                    v(where, 'does not decode its own encoding')
                elif g['v'] != exp:
                    v(where + '-value', 'value() differs')
                elif g['n'] != str(len(a)):
                    v(where + '-count', 'number_of_components() is ' + g['n'])
                elif g['c'] != exp:
                    v(where + '-component', 'component_number(i) gives ' + g['c'])
                elif g['beyond'] != '-1,-1,-1,-1,':
                    v(where + '-beyond', 'component_number beyond the end gives ' + g['beyond'])
                elif g['eq'] != '10':
                    v(where + '-equality', 'does not equal its arcs')
            if f['same'] != '11':
                v('routes', 'construction, assignment and assign() differ')
            if f['e'] != model.encode(t.w, tuple(a)).hex():
                v('encoding', 'encodes to %s instead of %s' % (f['e'], model.encode(t.w, tuple(a)).hex()))

    def contents(n):
        cases = []
        for _ in range(n):
            t = rng.choice(ts)
            r = rng.random()
            if r < .6:
                c = ber.enc_oid(values.oid(rng))
                if rng.random() < .3:
                    c = values.mutate(rng, c)
            else:
                c = bytes(rng.choice([0, 1, 39, 40, 79, 80, 0x7f, 0x80, 0x81, 0xff, rng.getrandbits(8)]) for _ in range(rng.randint(0, 14)))
            cases.append((t, c, 'C %s %s' % (t.name, wrap(t.w, c).hex())))
        cases = wire.chosen(chk, s, cases, lambda c: c[2])
        if not cases:
            return
        for (t, c, line), r in zip(cases, drv.run(s.exe, [c[2] for c in cases], 'oid')):
            chk.case(nontrivial=(t.name, c) if len(c) > 1 else None)
            if wire.broken(chk, s, t, line, r, 'oid-contents'):
                continue

            def v(key, what):
                chk.violation('oid-contents:' + key, '%s contents %s: %s; observed %s' % (t.desc, c.hex(), what, r.out[:600]), wire.replay(s, t, line))
            f = dict(x.split('=', 1) for x in r.out.split(' '))
            a = ber.dec_oid(c)
            if a is not None and all(x < 2**63 for x in a) and a[0] * 40 + a[1] < 2**63:
                chk.event('valid contents')
                exp = '.'.join(map(str, a))
                if f['ok'] != '1':
                    v('refused', 'valid contents refused')
                elif (f['v'], f['c'], f['n'], f['beyond'], f['eq']) != (exp, exp, str(len(a)), '-1,-1,-1,-1,', '10'):
                    v('wrong', 'should read as ' + exp)
                elif f['e'] != wrap(t.w, c).hex():
                    v('re-encoding', 're-encodes differently')
            else:
                chk.event('invalid or oversized contents')
                if f['ok'] == '1' and c and c[-1] & 0x80:
                    v('truncated-accepted', 'truncated contents accepted')
                if f['ok'] == '1' and a is not None:
                    v('oversized-accepted', 'an arc beyond 63 bits accepted')
    repeat(chk, assign, scale(25000, 600000), STEP)
    repeat(chk, contents, scale(20000, 500000), STEP)


# ---------------------------------------------------------------- times
def c11(chk):
    chk.rule = 'distinct instants, instants with offsets, and received texts'
    rng = rng_for('C11')
    ts = reg_types(rng, 'time', 'GeneralizedTime<%s>', 'run_time', scale(4, 8))
    u = builtin.T('utc', 'UTCTime<>', W('time', [(0, 23)], sub='UTCTime'), 'utctime')
    u.desc = u.cpp
    exe = content_driver([(t.name, 'run_time', t.cpp) for t in ts + [u]], 'content')
    for tz, east in (('UTC', 0),) + ((('Asia/Kolkata', 19800),) if os.path.exists('/usr/share/zoneinfo/Asia/Kolkata') else ()):
        s = Simple(exe, ts)
        s.label, s.env = 'content/' + tz, {'TZ': tz}
        times(chk, s, ts, rng, east)
    s = Simple(exe, ts + [u])
    s.label = 'utctime'
    utctime(chk, s, u, rng)


def parse_obs(x):
    return dict(y.split('=', 1) for y in x.strip().split(' '))


def time_text(rng):
    sec = values.secs(rng)
    x = model.civil_text(sec)
    r = rng.random()
    if r < .3:
        x += 'Z'
    elif r < .45:
        x += model.offset_text(rng.choice([0, 60, -60, 330, -210, 720, -720, rng.randint(-840, 840)]))
    elif r < .5:
        pass
    elif r < .6:  # other forms of X.680
        x = rng.choice([x[:10], x[:12], x + '.5', x + ',25', x[:12] + '.5', x[:10] + '.5']) + rng.choice(['', 'Z', '+0100', '+01', '-0530'])
    else:
        x += rng.choice(['Z', 'Z', '', '+0100', '-0330'])
        for _ in range(rng.choice([1, 1, 2, 3])):
            i = rng.randint(0, len(x))
            k = rng.randint(0, 3)
            ch = rng.choice('0123456789 +-.,:Zz%/\0\t\x7f~TabE')
            x = x[:i] + ch + x[i + 1:] if k < 2 else x[:i] + ch + x[i:] if k == 2 else x[:i] + x[i + 1:]
    return x


def times(chk, s, ts, rng, east):
    def setters(n):
        cases = []
        for _ in range(n):
            t = rng.choice(ts)
            v = values.time(rng)
            r = rng.random()
            if r < .15 and model.MINSEC + 86400 < v[1] < model.MAXSEC - 86400 and (east == 0 or v[1] > 0):
                cases.append((t, ('l', v[1]), 'L %s %d %d %d %d %d %d' % ((t.name,) + model.civil(v[1]))))
            elif v[0] == 'z':
                cases.append((t, v, 'Z %s %d' % (t.name, v[1])))
            else:
                cases.append((t, v, 'O %s %d %d' % (t.name, v[1], v[2])))
        cases = wire.chosen(chk, s, cases, lambda c: c[2])
        if not cases:
            return
        for (t, val, line), r in zip(cases, drv.run(s.exe, [c[2] for c in cases], 'time', env=s.env)):
            chk.case(nontrivial=(t.name, val))
            if wire.broken(chk, s, t, line, r, 'time'):
                continue

            def v(key, what):
                chk.violation('time:' + key, '%s %s: %s; observed %s' % (t.desc, val, what, r.out[:600]), wire.replay(s, t, line))
            a, b = (parse_obs(x) for x in r.out.split(' | '))
            local = val[1] - east
            if val[0] == 'z':
                want, fmt, inst = model.civil_text(val[1]) + 'Z', '0', val[1]
            elif val[0] == 'l':
                want, fmt, inst = model.civil_text(val[1]), '2', local
            else:
                inst, fmt = val[1], '1'
                shifted = val[1] + 60 * val[2]
                want = (model.civil_text(shifted) + model.offset_text(val[2])) if model.MINSEC <= shifted <= model.MAXSEC else None
            chk.event({'z': 'universal', 'l': 'local', 'o': 'with offset'}[val[0]] + ' instants set')
            got = bytes.fromhex(a['s']).decode('latin1')
            if want is not None and got != want:
                utc = model.civil_text(val[1]) + model.offset_text(val[2]) if val[0] == 'o' else None
                v('set-with-offset-writes-utc' if got == utc else 'text', 'text %r instead of %r' % (got, want))
            for x, where in ((a, 'set'), (b, 'decoded')):
                if x['s'] != a['s'] or x.get('ok', '1') != '1':
                    v(where, 'does not survive encode and decode')
                elif x['f'] != fmt:
                    v(where + '-format', 'format %s instead of %s' % (x['f'], fmt))
                elif x['t'] != str(inst):
                    v(where + '-instant', 'time() %s instead of %s' % (x['t'], inst))
            if b.get('c', '1') != '1':
                v('construct', 'constructing from the instant differs from setting it')
            if a['e'] != wrap(t.w, bytes.fromhex(a['s'])).hex():
                v('encoding', 'the encoding does not hold the text')

    def texts(n):
        cases = []
        for _ in range(n):
            t = rng.choice(ts)
            x = time_text(rng)
            cases.append((t, x, 'C %s %s' % (t.name, wrap(t.w, x.encode('latin1')).hex())))
        cases = wire.chosen(chk, s, cases, lambda c: c[2])
        if not cases:
            return
        for (t, x, line), r in zip(cases, drv.run(s.exe, [c[2] for c in cases], 'time', env=s.env)):
            chk.case(nontrivial=(t.name, x))
            if wire.broken(chk, s, t, line, r, 'time-text'):
                continue

            def v(key, what):
                chk.violation('time-text:' + key, '%s text %r: %s; observed %s' % (t.desc, x, what, r.out[:600]), wire.replay(s, t, line))
            f = parse_obs(r.out)
            ins = read(x, east)
            if f['ok'] != '1':
                chk.event('refused texts')
                if ins is not None:
                    v('refused', 'a well-formed time is refused')
                continue
            if bytes.fromhex(f['s']).decode('latin1') != x:
                v('string', 'string() is not the received text')
            if f['e'] != wrap(t.w, x.encode('latin1')).hex():
                v('re-encoding', 're-encodes as ' + f['e'])
            if ins is not None:
                chk.event('well-formed texts')
                fmt = {'Z': '0', '+': '1', '-': '1'}.get(x[14:15], '2')
                if f['f'] != fmt:
                    v('format', 'format %s instead of %s' % (f['f'], fmt))
                if f['t'] != str(ins):
                    ign = read(x[:14] + 'Z', east) if fmt == '1' else None
                    v('offset-ignored' if ign is not None and f['t'] == str(ign) else 'instant', 'read as %s instead of %s' % (f['t'], ins))
            elif east and len(x) == 14 and read(x + 'Z', 0) is not None:
                chk.event('local times before the zone had its present offset')
            elif x[12:14] == '60' and read(x[:12] + '59' + x[14:], east) is not None:
                chk.event('leap seconds')  # an instant a count of seconds has no number for
            elif len(x) == 19 and x[14] in '+-' and f['t'] == str(read(x[:14] + 'Z', east)):
                v('offset-ignored', 'read as %s, whatever the offset' % f['t'])
            elif general(x):
                chk.event('texts in other forms of X.680')
                if f['t'] not in ('throws', ):
                    v('other-form', 'read as %s' % f['t'])
            else:
                chk.event('malformed texts')
                if f['t'] != 'throws':
                    v('malformed', 'malformed text read as the instant %s' % f['t'])
    repeat(chk, setters, scale(10000, 400000), STEP)
    repeat(chk, texts, scale(12000, 500000), STEP)


def read(x, east):
    """instant of a text in seconds resolution, None if it is not one"""
    import re
    m = re.fullmatch(r'(\d{4})(\d\d)(\d\d)(\d\d)(\d\d)(\d\d)(Z|[+-]\d{4}|)', x, re.A)
    if not m:
        return None
    i = model.unix(*(int(g) for g in m.groups()[:6]))
    z = m.group(7)
    if i is None:
        return None
    if z == 'Z':
        return i
    if z == '':
        return i - east if east == 0 or i > 0 else None
    h, mi = int(z[1:3]), int(z[3:5])
    if h > 23 or mi > 59:
        return None
    return i - (1 if z[0] == '+' else -1) * 60 * (60 * h + mi)


def general(x):
    import re
    return re.fullmatch(r'\d{10}(\d\d(\d\d)?)?([.,]\d+)?(Z|[+-]\d\d(\d\d)?|)', x, re.A)


def utctime(chk, s, u, rng):
    """UTCTime is YYMMDDhhmm[ss](Z|+hhmm|-hhmm)"""
    cases = []
    for _ in range(scale(300, 3000)):
        sec = rng.randint(-631152000, 2524607999)  # 1950 .. 2049
        cases.append((u, sec, 'Z utc %d' % sec))
        cases.append((u, sec, 'C utc %s' % wrap(u.w, (model.civil_text(sec)[2:] + 'Z').encode()).hex()))
    cases = wire.chosen(chk, s, cases, lambda c: c[2])
    if not cases:
        return
    for (t, sec, line), r in zip(cases, drv.run(s.exe, [c[2] for c in cases], 'utc')):
        chk.case(nontrivial=(line,))
        if wire.broken(chk, s, t, line, r, 'utctime'):
            continue
        f = parse_obs(r.out.split(' | ')[0])
        want = model.civil_text(sec)[2:] + 'Z'
        got = bytes.fromhex(f['s']).decode('latin1')

        def v(key, what):
            chk.violation('utctime:' + key, '%s: %s; observed %s' % (line, what, r.out[:300]), wire.replay(s, t, line))
        if line[0] == 'Z':
            if got != want:
                v('four-digit-year' if got == model.civil_text(sec) + 'Z' else 'text', 'UTCTime %r instead of %r' % (got, want))
            if f['t'] != str(sec):
                v('instant', 'reads %s instead of %s' % (f['t'], sec))
        else:
            if got != want:
                v('received-text', 'UTCTime text %r held as %r' % (want, got))
            elif f['t'] == 'throws':
                v('two-digit-year-unreadable', 'a received UTCTime %r cannot be read' % want)
            elif f['t'] != str(sec):
                v('received-instant', 'UTCTime %r read as %s instead of %s' % (want, f['t'], sec))
