"""C06-C08 and the generated parts of C01, C02, C12, C13: types that the project's ASN.1 compiler generates from schemas."""
from lib import ber, build, gensuite, model, report, schema, wire
from lib.schema import Comp, Module, Ty
from lib.checks.wire_checks import FUZZ, STEP, fuzzing, repeat, rng_for, scale


def three_tags():
    """the one schema of the known finding about types with more than two tags"""
    m = Module('ThreeTags', 'EXPLICIT')
    m.types.append(('Ticket', Ty('tag', cls=1, num=1, mode=None, inner=Ty('seq', comps=[Comp('vno', Ty('int'))]))))
    m.types.append(('Request', Ty('tag', cls=2, num=5, mode=None, inner=Ty('ref', name='Ticket'))))
    return [m]


def schemas(rng, n, opts=None, systematic=True):
    out = schema.systematic() if systematic else []
    k = 0
    while k < n:
        s = schema.random_schema(rng, k, opts)
        if schema.valid(s) is None:
            out.append(s)
            k += 1
    return out


def suite(chk, pid, ops, n, opts=None, systematic=True, extra=(), **build_options):
    rng = rng_for(pid, 'schemas')
    ss = schemas(rng, n, opts, systematic)
    s, fails = gensuite.build_suites(ss + list(extra), ops, **build_options)
    if s is None or len(fails) * 2 > len(ss):
        raise build.HarnessError('%d of %d schemas could not be built: %s' % (len(fails), len(ss), fails[0].msg[:1500]))
    chk.event('schemas compiled by fast_ber_compiler', len(ss) - len(fails))
    if fails:
        chk.event('schemas that could not be built (C19 decides those)', len(fails))
        chk.sample('not built: ' + fails[0].msg[:300])
    chk.event('generated types', len(s.types))
    for t in s.types:
        chk.event('top-level types of kind ' + t.w.kind)
        if t.name.endswith('_ThreeTags_Request'):
            t.group = 'three-tags'
    for t in s.types[:: max(1, len(s.types) // 10)]:
        chk.sample(t.desc)
    return s


TRUST = 'the expected tags and values come from lib/schema.py and lib/model.py, written from X.680/X.690 independently of the compiler'


def c06(chk):
    chk.rule = 'distinct (type definition, value) pairs with a non-default value: the generated encoder against an independent X.690 encoder'
    rng = rng_for('C06')
    s = suite(chk, 'C06', 'E', scale(20, 150), extra=[three_tags()])
    repeat(chk, lambda n: wire.run_encode(chk, s, wire.gen_encode(s, rng, n), wire.judge_bytes), scale(24000, 600000), STEP)
    chk.assumptions.append(TRUST)


def c07(chk):
    chk.rule = 'distinct (type definition, encoding) pairs of more than two octets: valid encodings in all the variety BER allows'
    rng = rng_for('C07')
    s = suite(chk, 'C07', 'D', scale(20, 150), extra=[three_tags()])

    def part(n):
        cs = wire.gen_valid(s, rng, n)
        wire.run_decode(chk, s, [(t, b) for t, v, b, k in cs], wire.judge_accept)
    repeat(chk, part, scale(24000, 600000), STEP)
    chk.assumptions.append(TRUST)


def c08(chk):
    chk.rule = 'distinct (type definition, input) pairs of more than two octets: truncated, mutated, restructured and wrongly tagged encodings'
    rng = rng_for('C08')
    s = suite(chk, 'C08', 'D', scale(20, 150), fuzz=fuzzing(chk))
    if fuzzing(chk):
        wire.run_decode(chk, s, wire.gen_fuzzed(chk, s, rng, FUZZ), wire.judge_reject)
    wire.run_decode(chk, s, wire.gen_truncated(s, rng, scale(1, 6)), wire.judge_reject)
    wire.run_decode(chk, s, wire.gen_wrong_tags(s, rng, scale(10, 80)), wire.judge_reject)
    repeat(chk, lambda n: wire.run_decode(chk, s, wire.gen_mutated(s, rng, n), wire.judge_reject), scale(30000, 700000), STEP)
    chk.assumptions.append(TRUST)


def nested(suite, depths):
    """valid encodings of a list type that refers to itself, nested deeply (written inside out, as they get long)"""
    out = []
    for t in suite.types:
        if not t.name.endswith('B_Listing'):
            continue
        head, tail = t.w.members
        for d in depths:
            h = model.encode(head.w, 5)
            parts, size = [], 0
            for i in range(d):
                x = h
                if i:
                    for c, n in reversed(tail.w.tags):
                        hd = ber.ident(c, 1, n) + ber.length(size)
                        parts.append(hd)
                        size += len(hd)
                parts.append(x)
                size += len(x)
            for c, n in reversed(t.w.tags):
                hd = ber.ident(c, 1, n) + ber.length(size)
                parts.append(hd)
                size += len(hd)
            out.append((t, b''.join(reversed(parts))))
    return out
