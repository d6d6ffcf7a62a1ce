"""Drivers over the run-time library's own types: chooses C++ types and taggings, writes and builds the driver."""
import os
from lib import build, model
from lib.model import W, M, STRTAG, natural_tag
from lib.ber import UNIV, APPL, CTX, PRIV

CLS = {UNIV: 'Class::universal', APPL: 'Class::application', CTX: 'Class::context_specific', PRIV: 'Class::private_'}
TAGS = [0, 1, 2, 15, 29, 30, 31, 32, 63, 100, 127, 128, 129, 255, 256, 1000, 16383, 16384, 70000, 2097151, 2097152, 268435455, 268435456,
        2**31 - 1, 2**31, 34359738367, 34359738368, 2**42 - 1, 2**42, 2**49 - 1, 2**49, 2**56 - 1, 2**56, 2**63 - 1]


def id_cpp(tags):
    ids = ['Id<%s, Tag(%dLL)>' % (CLS[c], n) for c, n in tags]
    return ids[0] if len(ids) == 1 else 'DoubleId<%s, %s>' % tuple(ids)


def rand_tag(rng):
    return (rng.choice([CTX, CTX, APPL, PRIV]), rng.choice(TAGS))


def taggings(rng, nat, n):
    """n taggings: natural, single (implicit) and double (explicit)"""
    out = [[nat], [rand_tag(rng), nat], [rand_tag(rng)], [rand_tag(rng), rand_tag(rng)],
           [(CTX, rng.choice([0, 30, 31])), nat], [(rng.choice([APPL, PRIV]), rng.choice([30, 31, 127, 128]))]]
    while len(out) < n:
        out.append(rng.choice([[rand_tag(rng)], [rand_tag(rng), nat], [rand_tag(rng), rand_tag(rng)]]))
    return out[:n]


class T:
    def __init__(self, name, cpp, w, group):
        self.name, self.cpp, self.w, self.group = name, cpp, w, group


STRINGS = sorted(STRTAG)


def make_types(rng, per=5, kinds=None, extra=True):
    """a list of T; names are stable within the run"""
    out = []

    def add(group, cpp, w):
        out.append(T('%s_%d' % (group, len(out)), cpp, w, group))

    def want(k):
        return kinds is None or k in kinds
    for kind, tmpl, n in [('bool', 'Boolean<%s>', per), ('int', 'Integer<%s>', per + 3), ('null', 'Null<%s>', per - 1), ('real', 'Real<%s>', per),
                          ('oid', 'ObjectIdentifier<%s>', per), ('time', 'GeneralizedTime<%s>', per),
                          ('enum', 'Enumerated<VfColour, %s>', per)]:
        if not want(kind):
            continue
        for tags in taggings(rng, natural_tag(kind), n):
            add(kind, tmpl % id_cpp(tags), W(kind, tags, enum=[-2147483648, -129, -1, 0, 1, 2, 127, 128, 70000, 2147483647] if kind == 'enum' else None))
    if want('time'):
        add('time', 'UTCTime<>', W('time', [natural_tag('time', 'UTCTime')], sub='UTCTime'))
    if want('str'):
        for s in STRINGS:
            nat = natural_tag('str', s)
            add('str', s + '<>', W('str', [nat], sub=s))
        for s in ['OctetString', 'BitString', 'OctetString', rng.choice(STRINGS), rng.choice(STRINGS)]:
            for tags in taggings(rng, natural_tag('str', s), per)[1:]:
                add('str', '%s<%s>' % (s, id_cpp(tags)), W('str', tags, sub=s))
    if want('seqof') and extra:
        for coll, mode in (('SequenceOf', 'small_buffer_optimised'), ('SetOf', 'dynamic'), ('SequenceOf', 'dynamic')):
            kind = 'seqof' if coll == 'SequenceOf' else 'setof'
            for tags in taggings(rng, natural_tag(kind), 3 + (per > 5)):
                ek = rng.choice(['int', 'str', 'bool', 'opt', 'nest', 'oid', 'real', 'null'])
                etags = taggings(rng, natural_tag('int'), 4)
                if ek == 'str':
                    t = rng.choice(taggings(rng, natural_tag('str', 'OctetString'), 4))
                    e, ec = W('str', t, sub='OctetString'), 'OctetString<%s>' % id_cpp(t)
                elif ek == 'bool':
                    t = rng.choice(taggings(rng, natural_tag('bool'), 4))
                    e, ec = W('bool', t), 'Boolean<%s>' % id_cpp(t)
                elif ek == 'oid':
                    t = rng.choice(taggings(rng, natural_tag('oid'), 3))
                    e, ec = W('oid', t), 'ObjectIdentifier<%s>' % id_cpp(t)
                elif ek == 'real':
                    t = rng.choice(taggings(rng, natural_tag('real'), 3))
                    e, ec = W('real', t), 'Real<%s>' % id_cpp(t)
                elif ek == 'null':
                    t = rng.choice(taggings(rng, natural_tag('null'), 3))
                    e, ec = W('null', t), 'Null<%s>' % id_cpp(t)
                elif ek == 'nest':
                    t, t2 = rng.choice(taggings(rng, natural_tag('seqof'), 4)), rng.choice(etags)
                    e = W('seqof', t, elem=W('int', t2))
                    ec = 'SequenceOf<Integer<%s>, %s>' % (id_cpp(t2), id_cpp(t))
                else:
                    t = rng.choice(etags)
                    e, ec = W('int', t), 'Integer<%s>' % id_cpp(t)
                add(kind, '%s<%s, %s, StorageMode::%s>' % (coll, ec, id_cpp(tags), mode), W(kind, tags, elem=e))
    if want('choice') and extra:
        for mode in ('static_', 'dynamic'):
            for tags in (None, [rand_tag(rng)], [rand_tag(rng), rand_tag(rng)]):
                alts, cpps, used = [], [], set()
                for j in range(rng.randint(2, 6)):
                    for _ in range(30):
                        kind = rng.choice(['int', 'bool', 'null', 'str', 'oid', 'real'])
                        s = 'OctetString' if kind == 'str' else None
                        t = rng.choice(taggings(rng, natural_tag(kind, s), 6))
                        if t[0] not in used:
                            break
                    else:
                        continue
                    used.add(t[0])
                    alts.append(M('a%d' % j, W(kind, t, sub=s)))
                    cpps.append({'int': 'Integer', 'bool': 'Boolean', 'null': 'Null', 'str': 'OctetString', 'oid': 'ObjectIdentifier', 'real': 'Real'}[kind] + '<%s>' % id_cpp(t))
                c = 'Choices<%s>' % ', '.join(cpps)
                ident = id_cpp(tags) if tags else '%s::DefaultIdentifier' % c
                add('choice', 'VfRawChoice<Choice<%s, %s, StorageMode::%s>>' % (c, ident, mode), W('choice', tags or [], alts=alts))
        add('choice', 'Any<>', any_type())
    return out


def any_type():
    names = ['BitString', 'Boolean', 'CharacterString', 'Date', 'DateTime', 'Duration', 'GeneralizedTime', 'Integer', 'Null', 'ObjectIdentifier', 'OctetString', 'Real', 'Time', 'TimeOfDay', 'UTCTime', 'VisibleString']
    kinds = {'Boolean': 'bool', 'GeneralizedTime': 'time', 'Integer': 'int', 'Null': 'null', 'ObjectIdentifier': 'oid', 'Real': 'real', 'UTCTime': 'time'}
    kinds.update({n: 'time' for n in ('Date', 'DateTime', 'Duration', 'Time', 'TimeOfDay')})
    alts, pick, seen = [], [], set()
    for i, n in enumerate(names):
        if n in kinds:
            k = kinds[n]
            # the date and time types are aliases of GeneralizedTime and UTCTime here
            w = W(k, [natural_tag(k, 'UTCTime' if n in ('UTCTime', 'Time', 'TimeOfDay') else None)])
        else:
            w = W('str', [natural_tag('str', n)], sub=n)
        alts.append(M(n, w))
        if w.tags[0] not in seen:
            pick.append(i)  # the first alternative with a tag is the one a decoder finds
            seen.add(w.tags[0])
    w = W('choice', [], alts=alts)
    w.pick = pick
    return w


PRELUDE = '''#include "vf.hpp"
namespace fast_ber {
enum class VfColour { low = -2147483647 - 1, minus129 = -129, minus1 = -1, zero = 0, one = 1, two = 2, c127 = 127, c128 = 128, c70000 = 70000, high = 2147483647 };
inline std::ostream& operator<<(std::ostream& os, VfColour c) { return os << "colour" << static_cast<int>(c); }
%s
}
'''


def build_driver(types, ops, name='builtin', opt='-O0', flags=None, chunks=None, fuzz=False):
    """fuzz: also a libFuzzer target, beside the driver"""
    flags = (build.SAN if flags is None else flags) + (['-fsanitize=fuzzer-no-link'] if fuzz else [])
    d = build.sub(name)
    chunks = chunks or build.NCPU
    chunks = max(1, min(chunks, len(types)))
    jobs, objs = [], []
    for job, o in build.lib_jobs(name + '-lib', [opt] + flags):
        jobs.append(job)
        objs.append(o)
    srcs = []
    for i in range(chunks):
        src = os.path.join(d, 'types%d.cpp' % i)
        with open(src, 'w') as f:
            f.write('#define VF_OPS "%s"\n' % ops + PRELUDE % '')
            f.write('namespace fast_ber {\n')
            for j, t in enumerate(types[i::chunks]):
                f.write('using VfT%d = %s;\nstatic vf::Reg vf_reg%d("%s", &vf::run_type<VfT%d>);\n' % (j, t.cpp, j, t.name, j))
            f.write('}\n')
        srcs.append(src)
    main = os.path.join(d, 'main.cpp')
    with open(main, 'w') as f:
        f.write('#define VF_OPS "%s"\n#include "vf_main.cpp"\n' % ops)
    srcs.append(main)
    if fuzz:
        srcs.append(build.fuzz_main(d, ops))
    for src in srcs:
        o = src[:-4] + '.o'
        objs.append(o)

        def job(src=src, o=o):
            ok, err = build.compile_one(src, o, [opt] + flags)
            if not ok:
                raise build.HarnessError('driver does not compile: ' + '\n'.join(l for l in err.split('\n') if 'error' in l)[:3000])
        jobs.append(job)
    build.parallel(jobs)
    return build.link_driver(objs, d, flags, fuzz)
