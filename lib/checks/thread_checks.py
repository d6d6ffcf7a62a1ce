"""C22: ThreadSanitizer and result comparison over threads that share nothing, inputs, or constant objects."""
from lib import ber, build, builtin, drv, model, values, wire
from lib.checks import content_checks, gen_checks
from lib.checks.wire_checks import repeat, rng_for, scale

TSAN = ['-fsanitize=thread', '-fno-omit-frame-pointer', '-g1']


def other_contents(w, rng):
    """contents the library does not write, or reads by other code: None, or octets"""
    if w.kind == 'real':
        return rng.choice([content_checks.real_decimal, content_checks.real_decimal, content_checks.real_binary, content_checks.real_invalid])(rng)
    if w.kind == 'time':
        return content_checks.time_text(rng).encode('latin1')
    return None


def gen_threads(suite, rng, n):
    out = []
    for i in range(n):
        t = suite.types[i % len(suite.types)] if i < 2 * len(suite.types) else rng.choice(suite.types)
        vs = [values.gen(t.w, rng) for _ in range(rng.randint(1, 4))]
        segs = [model.text(t.w, v) for v in vs]
        for v in vs[:rng.randint(1, 3)]:
            b = model.encode(t.w, v)
            q = rng.random()
            other = other_contents(t.w, rng) if rng.random() < .6 else None
            if other is not None:
                b = other
                for j, (cl, nu) in enumerate(reversed(t.w.tags)):
                    b = ber.tlv(cl, 1 if j else 0, nu, b)
            elif q < .4:
                b = values.mutate(rng, b)
            elif q < .5:
                b = b[:rng.randint(0, len(b))]
            segs.append('d' + b.hex())
        segs = [s for s in segs if len(s) < 20000 and ' ' not in s] or [segs[0]]
        out.append((t, 'T %s %d %s' % (t.name, rng.randrange(1 << 30), ' '.join(segs))))
    return out


def run_threads(chk, suite, cases, batch):
    """small batches: what is set up once per process is set up by racing threads in each"""
    cases = wire.chosen(chk, suite, cases, lambda c: c[1])
    if not cases:
        return
    parts = [cases[i:i + batch] for i in range(0, len(cases), batch)]

    def one(k):
        return drv.run(suite.exe, [c[1] for c in parts[k]], '%s-T%d' % (suite.label, k), limit=60, workers=1, max_crashes=3, wall=120, wall_hang=40)
    for part, rs in zip(parts, build.parallel([lambda k=k: one(k) for k in range(len(parts))], 4)):
        chk.event('processes')
        for (t, line), r in zip(part, rs):
            chk.case(nontrivial=(t.desc, line))
            if wire.broken(chk, suite, t, line, r, 'threads'):
                continue
            for x in r.out.split(' ')[:2]:
                p = x.split(',')
                if len(p) == 3:
                    chk.event('thread steps ordered', int(p[0]))
                    chk.event('switches between threads', int(p[1]))
                    chk.event('rounds of four threads')
                    chk.orders.add(p[2])
            if '!' in r.out:
                chk.violation('threads:%s:%s' % (t.group, 'shared' if '!shared' in r.out else 'own'), '%s: %s on %s' % (t.desc, r.out[r.out.index('!'):][:600], wire.cut(line)), wire.replay(suite, t, line))


def c22(chk):
    chk.rule = 'distinct (type, values, inputs) cases, each worked on by four threads at once (on own objects and shared inputs, then on shared constant objects) under ThreadSanitizer'
    chk.assumptions = ['the C++ and abseil libraries are not instrumented: races inside them are seen only where they intercept', 'interleavings are sampled: the order of steps is recorded, not controlled']
    chk.orders = set()
    rng = rng_for('C22')
    ts = builtin.make_types(rng, per=scale(3, 8))
    for t in ts:
        t.desc = t.cpp
    s = wire.Suite(builtin.build_driver(ts, 'T', name='builtin', opt='-O1', flags=TSAN), ts, 'builtin')
    s.kind = 'builtin'
    repeat(chk, lambda n: run_threads(chk, s, gen_threads(s, rng, n), 20), scale(3000, 60000), 10000)
    g = gen_checks.suite(chk, 'C22', 'T', scale(6, 40), opt='-O1', flags=TSAN)
    repeat(chk, lambda n: run_threads(chk, g, gen_threads(g, rng, n), 20), scale(2500, 60000), 10000)
    chk.event('distinct orders of steps', len(chk.orders))
