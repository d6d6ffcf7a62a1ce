"""C01-C05, C12, C13: the wire properties on the run-time library's own types (and on generated ones, from gen_checks)."""
import os, random
from lib import builtin, report, wire


def scale(quick, thorough):
    return thorough if report.tier() == 'thorough' else quick


def rng_for(pid, part=''):
    return random.Random('%s/%s/%d' % (pid, part, report.seed()))


def builtin_suite(rng, ops, kinds=None, per=None, extra=True, label='builtin', opt='-O0', fuzz=False):
    ts = builtin.make_types(rng, per=per or scale(4, 12), kinds=kinds, extra=extra)
    for t in ts:
        t.desc = t.cpp
    s = wire.Suite(builtin.build_driver(ts, ops, name=label, opt=opt, fuzz=fuzz), ts, label)
    s.kind = 'builtin'
    return s


def only(chk, suite, cases, idx):
    """when replaying: the one case of the replay file"""
    if chk.replaying is None:
        return cases
    return [c for c in cases if chk.replaying.get('suite') == suite.label and c[idx] == chk.replaying.get('case')]


def repeat(chk, fn, n, step):
    """in steps, so that memory stays bounded"""
    while n > 0:
        fn(min(n, step))
        n -= step


STEP = 60000


def generated(chk, pid, ops, **kw):
    from lib.checks import gen_checks
    return gen_checks.suite(chk, pid, ops, scale(8, 60), **kw)


FUZZ = int(os.environ.get('VERIF_FUZZ', '120'))


def fuzzing(chk):
    return scale(False, True) and chk.replaying is None


def c01(chk):
    chk.rule = 'distinct (type, input) pairs with more than two input octets, decoded, viewed, re-encoded, copied and destroyed under ASan and UBSan'
    rng = rng_for('C01')
    s = builtin_suite(rng, 'DH', fuzz=fuzzing(chk))

    def part(n):
        wire.run_decode(chk, s, wire.gen_mutated(s, rng, n, big=.0005), wire.judge_safe)
        wire.run_history(chk, s, wire.gen_history(s, rng, n // 4), judge=False)
    wire.run_decode(chk, s, wire.gen_truncated(s, rng, scale(2, 10)), wire.judge_safe)
    wire.run_decode(chk, s, wire.gen_hostile(s, rng, scale(40, 400)), wire.judge_safe)
    repeat(chk, part, scale(40000, 1200000), STEP)
    if fuzzing(chk):
        wire.run_decode(chk, s, wire.gen_fuzzed(chk, s, rng, FUZZ), wire.judge_safe)
    g = generated(chk, 'C01', 'DH', fuzz=fuzzing(chk))
    if fuzzing(chk):
        wire.run_decode(chk, g, wire.gen_fuzzed(chk, g, rng, FUZZ), wire.judge_safe)
    wire.run_decode(chk, g, wire.gen_truncated(g, rng, scale(1, 6)), wire.judge_safe)
    wire.run_decode(chk, g, wire.gen_hostile(g, rng, scale(24, 300)), wire.judge_safe)

    def gpart(n):
        wire.run_decode(chk, g, wire.gen_mutated(g, rng, n), wire.judge_safe)
        wire.run_history(chk, g, wire.gen_history(g, rng, n // 4), judge=False)
    repeat(chk, gpart, scale(16000, 500000), STEP)
    from lib.checks import gen_checks
    wire.run_decode(chk, g, gen_checks.nested(g, [5, 50, 300]), wire.judge_accept, where='nesting')
    wire.run_decode(chk, g, gen_checks.nested(g, [100000]), wire.judge_safe, where='deep-nesting', stack_kb=8192)
    valgrind(chk, rng, g)
    chk.assumptions.append('memory errors are those AddressSanitizer and UndefinedBehaviorSanitizer detect in an -O0 build; inputs are held in exactly sized heap blocks that are overwritten and freed after decoding')


def valgrind(chk, rng, g):
    """decisions and results that depend on uninitialised memory, which the sanitizers do not see"""
    ts = builtin.make_types(rng, per=scale(3, 8), extra=True)
    for t in ts:
        t.desc = t.cpp
    s = wire.Suite(['valgrind', builtin.build_driver(ts, 'DH', name='valgrind', opt='-O1', flags=['-g1'])], ts, 'valgrind')
    s.kind = 'builtin'
    from lib.checks import gen_checks
    g = gen_checks.suite(chk, 'C01v', 'DH', scale(1, 20), label='valgrind-generated', opt='-O1', flags=['-g1'], systematic=scale(False, True))
    g.exe = ['valgrind', g.exe]
    for x, n in ((s, scale(4000, 60000)), (g, scale(2000, 60000))):
        wire.run_decode(chk, x, wire.gen_mutated(x, rng, n) + wire.gen_hostile(x, rng, 2), wire.judge_safe, where='valgrind')
        wire.run_history(chk, x, wire.gen_history(x, rng, n // 8), judge=False)
        chk.event('executions under valgrind', n + n // 8)


def c02(chk):
    chk.rule = 'distinct (type, value) pairs with a non-default value; each is encoded into buffers of exact, larger and smaller sizes'
    rng = rng_for('C02')
    s = builtin_suite(rng, 'E')
    repeat(chk, lambda n: wire.run_encode(chk, s, wire.gen_encode(s, rng, n), wire.judge_buffer), scale(20000, 500000), STEP)
    g = generated(chk, 'C02', 'E')
    repeat(chk, lambda n: wire.run_encode(chk, g, wire.gen_encode(g, rng, n), wire.judge_buffer), scale(16000, 400000), STEP)


def c03(chk):
    chk.rule = 'distinct (type, value) pairs with a non-default value, encoded and compared with an independent X.690 encoder'
    rng = rng_for('C03')
    s = builtin_suite(rng, 'E')
    repeat(chk, lambda n: wire.run_encode(chk, s, wire.gen_encode(s, rng, n), wire.judge_bytes), scale(30000, 800000), STEP)
    headers(chk, rng, scale(6000, 100000))


def headers(chk, rng, n):
    """header octets by themselves, where no value could be big enough"""
    from lib import ber, drv, values
    from lib.checks.content_checks import Simple, content_driver
    from lib.checks.library_checks import wireless
    s = Simple(content_driver([], 'headers', header='views.hpp', plain=[('header', 'run_header'), ('numbers', 'run_numbers')]), [])
    s.label = 'headers'
    t = wireless('header')

    def edge(bits, group):
        x = rng.random()
        if x < .4:
            k = group * rng.randrange(1, bits // group + 1)
            return min(max(0, (1 << k) + rng.choice([-2, -1, 0, 1])), (1 << bits) - 1)
        return rng.randrange(1 << rng.randrange(1, bits + 1)) if x < .9 else rng.randrange(300)
    cases = []
    replayed = chk.replaying['case'].split(' ')[1] if chk.replaying is not None else None
    if replayed == 'header':
        d = bytes.fromhex(chk.replaying['case'].split(' ')[2])
        cases.append((d[0], d[1], int.from_bytes(d[2:10], 'big'), int.from_bytes(d[10:18], 'big')))
    n = 0 if replayed else n
    for _ in range(n):
        tag = 5 if rng.random() < .2 else edge(63, 7)
        cases.append((rng.randrange(4), rng.randrange(2), tag, edge(64 if tag != 5 else 62, 8 if rng.random() < .8 else 7)))
    lines = ['H header ' + (bytes([c, k]) + tag.to_bytes(8, 'big') + l.to_bytes(8, 'big')).hex() for c, k, tag, l in cases]
    for (c, k, tag, l), line, r in zip(cases, lines, drv.run(s.exe, lines, 'headers')):
        chk.case(1, line)
        if wire.broken(chk, s, t, line, r, 'header'):
            continue
        i, ln = ber.ident(c, k, tag), ber.length(l)
        want = '%d,%d,%d:%s' % (len(i), len(ln), len(i + ln), (i + ln).hex())
        if tag == 5:
            for ids in [[(0, 16)], [(3, 127)], [(3, 128)], [(2, 30), (0, 16)], [(1, 31), (2, 16384)]]:
                total = l
                hs = 0
                for c2, t2 in reversed(ids):
                    h = len(ber.ident(c2, 1, t2)) + len(ber.length(total))
                    total += h
                    hs += h
                want += '%d,%d,' % (hs, total - l)
        if r.out == want:
            chk.event('headers written, measured and read back in every buffer size')
        else:
            chk.violation('header:bytes', 'the header of class %d, form %d, tag %d and length %d is\n    %s\n  X.690 prescribes\n    %s' % (c, k, tag, l, r.out[:300], want), wire.replay(s, t, line))
    # the functions INTEGER and REAL are made of
    integer = lambda: rng.choice(values.INTS) if rng.random() < .5 else rng.getrandbits(rng.randint(1, 63)) * rng.choice([1, -1])
    t = wireless('numbers')
    cases = []
    if replayed == 'numbers':
        d = bytes.fromhex(chk.replaying['case'].split(' ')[2])
        cases.append((int.from_bytes(d[:8], 'big', signed=True), d[8:]))
    for _ in range(n):
        v = integer() if rng.random() < .6 else int.from_bytes(values.real(rng).to_bytes(8, 'big'), 'big', signed=True)
        x = rng.random()
        c = (rng.choice([b'\0', b'\xff', b'\x80', b'\x7f', bytes([rng.getrandbits(8)])]) + rng.randbytes(rng.randrange(10)) if x < .5 else
             ber.enc_int(integer()) if x < .7 else rng.randbytes(rng.randrange(12)))
        cases.append((v, c))
    lines = ['N numbers ' + (v.to_bytes(8, 'big', signed=True) + c).hex() for v, c in cases]
    for (v, c), line, r in zip(cases, lines, drv.run(s.exe, lines, 'numbers')):
        chk.case(1, line)
        if wire.broken(chk, s, t, line, r, 'numbers'):
            continue
        e = ber.enc_int(v)
        want = ''.join('%d,' % (len(e) if size >= len(e) else 0) for size in range(11)) + e.hex() + ' '
        want += 'refused;' if not 1 <= len(c) <= 8 else '%d;' % int.from_bytes(c, 'big', signed=True)
        if r.out == want:
            chk.event('integers and reals through the free functions')
        else:
            chk.violation('numbers:free-functions', 'integer %d, contents %s:\n    %s\n  prescribed is\n    %s' % (v, c.hex(), r.out[:300], want), wire.replay(s, t, line))


def c04(chk):
    chk.rule = 'distinct (type, encoding) pairs of more than two octets, where an independent decoder says valid'
    rng = rng_for('C04')
    s = builtin_suite(rng, 'D')

    def part(n):
        cs = wire.gen_valid(s, rng, n)
        wire.run_decode(chk, s, [(t, b) for t, v, b, k in cs], wire.judge_accept)
    repeat(chk, part, scale(40000, 1000000), STEP)


def c05(chk):
    chk.rule = 'distinct (type, input) pairs of more than two octets, mutated from valid encodings'
    rng = rng_for('C05')
    s = builtin_suite(rng, 'D', fuzz=fuzzing(chk))
    wire.run_decode(chk, s, wire.gen_truncated(s, rng, scale(4, 20)), wire.judge_reject)
    if fuzzing(chk):
        wire.run_decode(chk, s, wire.gen_fuzzed(chk, s, rng, FUZZ), wire.judge_reject)
    wire.run_decode(chk, s, wire.gen_wrong_tags(s, rng, scale(30, 300)), wire.judge_reject)
    repeat(chk, lambda n: wire.run_decode(chk, s, wire.gen_mutated(s, rng, n), wire.judge_reject), scale(40000, 1000000), STEP)


def c12(chk):
    chk.rule = 'distinct histories (1 to 7 steps over one object)'
    rng = rng_for('C12')
    s = builtin_suite(rng, 'H')
    repeat(chk, lambda n: wire.run_history(chk, s, wire.gen_history(s, rng, n)), scale(20000, 500000), STEP)
    g = generated(chk, 'C12', 'H')
    repeat(chk, lambda n: wire.run_history(chk, g, wire.gen_history(g, rng, n)), scale(12000, 400000), STEP)


def c13(chk):
    chk.rule = 'distinct pairs of values of one type'
    rng = rng_for('C13')
    s = builtin_suite(rng, 'V')
    repeat(chk, lambda n: wire.run_value(chk, s, wire.gen_value(s, rng, n)), scale(12000, 300000), STEP)
    g = generated(chk, 'C13', 'V')
    repeat(chk, lambda n: wire.run_value(chk, g, wire.gen_value(g, rng, n)), scale(10000, 300000), STEP)
