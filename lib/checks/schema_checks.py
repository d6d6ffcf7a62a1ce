"""C19 and C20: what the ASN.1 compiler makes of the many ways in which a schema can be written."""
import copy, hashlib, itertools, os, re, subprocess
from lib import build, cppgen, drv, gensuite, model, report, schema, variants, wire
from lib.schema import Comp, Module, Ty
from lib.checks.gen_checks import TRUST, schemas
from lib.checks.wire_checks import STEP, repeat, rng_for, scale


# ---------------------------------------------------------------- C20
def pick_rewrites(rng, i):
    """each rewrite on its own in turn, and random combinations"""
    if i % 3 == 2:
        return None
    x = variants.REWRITES[(i - i // 3) % len(variants.REWRITES)]
    return [x] if rng.random() < .5 else [x] + [y for y in ('text', 'order') if y != x]


def c20(chk):
    chk.rule = 'distinct (definition, value or input) pairs with a non-default value or more than two octets: the types of a schema against those of the same schema written differently'
    rng = rng_for('C20')
    origs = schemas(rng, scale(10, 70))
    jobs, n = [], 0
    for i, o in enumerate(origs):
        for _ in range(scale(2, 3)):
            v = variants.rewrite(o, rng, pick_rewrites(rng, n))
            n += 1
            if v.done and schema.valid(v) is None:
                jobs.append((i, v))
    s, fails = gensuite.build_suites(origs + [v for _, v in jobs], 'ED')
    if s is None:
        raise build.HarnessError('no schema could be built: ' + fails[0].msg[:1500])
    chk.event('schemas compiled', len(origs) + len(jobs) - len(fails))
    if fails:
        chk.event('schemas that could not be built (C19 decides those)', len(fails))
        chk.sample('not built: ' + fails[0].msg[:300])
    pairs = []
    for k, (i, v) in enumerate(jobs):
        got = 0
        for po, pn, vm, vn in v.pairs:
            a, b = s.by_name.get((i, po, pn)), s.by_name.get((len(origs) + k, vm, vn))
            if a is not None and b is not None:
                b.done = '+'.join(v.done)
                pairs.append((a, b))
                got += 1
        if got:
            for d in v.done:
                chk.event('schemas rewritten by: ' + d)
            if k % 4 == 0:
                chk.sample('%s: %s' % ('+'.join(v.done), ' '.join(v.files[0][1].split())[:400]))
    if not pairs:
        raise build.HarnessError('no variant could be built: ' + fails[0].msg[:1500])
    chk.event('pairs of types compared', len(pairs))
    by_id = {id(a): [] for a, _ in pairs}
    for a, b in pairs:
        by_id[id(a)].append(b)
    first = wire.Suite(s.exe, [a for a in {id(a): a for a, _ in pairs}.values()], s.label)

    def compare(cases, what):
        """cases: (type, line of the type); the same line for each of its variants"""
        lines = []
        for t, v, line in cases:
            for b in [t] + by_id[id(t)]:
                w = line.split(' ', 2)
                lines.append((t, b, v, ' '.join([w[0], b.name] + w[2:])))
        if chk.replaying is not None:
            want = chk.replaying.get('case')
            keep = {id(c[0]) for c in lines if c[3] == want}
            lines = [c for c in lines if id(c[0]) in keep and c[3].split(' ', 2)[2] == want.split(' ', 2)[2]]
        if not lines:
            return
        rs = drv.run(s.exe, [c[3] for c in lines], name='C20-' + what)
        ref = None
        for (t, b, v, line), r in zip(lines, rs):
            if r is None:
                chk.inconclusive += 1
                continue
            if b is t:
                ref = r
                continue
            chk.case(nontrivial=(b.desc, line) if v else None)
            chk.event('%s compared' % what)
            if (ref.kind, ref.out) == (r.kind, r.out):
                if r.kind == 'ok' and what == 'decodings':
                    chk.event('inputs accepted by both' if r.out[0] == '1' else 'inputs refused by both')
                continue
            if r.kind == 'crash' and ref.kind == 'crash':
                continue
            chk.violation('%s:%s:%s' % (b.done, t.w.kind, what),
                          'rewritten by %s, %s of %s differ: %s gives %s %s instead of %s %s (%s)' % (b.done, what, t.desc, wire.cut(line, 600), r.kind, wire.cut(r.out, 600), ref.kind, wire.cut(ref.out, 600), b.desc),
                          wire.replay(s, b, line, {'written as': b.desc, 'schema': getattr(b, 'schema', None)}))

    def enc(n):
        from lib import values
        compare([(t, values.nontrivial(t.w, v), l) for t, v, l in wire.gen_encode(first, rng, n)], 'encodings')

    def dec(n):
        cs = [(t, len(b) > 2, 'D %s %s' % (t.name, b.hex())) for t, _, b, _ in wire.gen_valid(first, rng, n // 2)]
        cs += [(t, len(b) > 2, 'D %s %s' % (t.name, b.hex())) for t, b in wire.gen_mutated(first, rng, n // 2)]
        compare(cs, 'decodings')
    repeat(chk, enc, scale(6000, 100000), STEP // 2)
    repeat(chk, dec, scale(9000, 150000), STEP // 2)
    chk.assumptions.append('the rewrites of lib/variants.py preserve the meaning X.680 and X.683 give to a schema')


# ---------------------------------------------------------------- C19
def normal(msg):
    """an error message without names and places"""
    m = re.search(r'error: (.*)', msg) or re.search(r'(?:error|exit \d+): ?(.*)', msg, re.S)
    x = m.group(1) if m else msg
    x = re.sub(r"'[^']*'|\"[^\"]*\"|‘[^’]*’", 'X', x.strip().split('\n')[-1])
    x = re.sub(r'[^ ]*/[^ ]*', '', x)
    return re.sub('[^A-Za-z]+', '-', x)[:70].strip('-')


def compile_cpp(cmd):
    """None if the C++ compiler did not come to an answer (out of time or memory)"""
    try:
        x = build.sh(cmd, timeout=300)
    except subprocess.TimeoutExpired:
        return None
    err = x.stderr.decode(errors='replace')
    return None if x.returncode < 0 or x.returncode and 'error' not in err or 'PLEASE submit a bug report' in err or 'Killed' in err else x


def big_schemas():
    """sizes a test would not try"""
    out = []
    m = Module('BigA', 'AUTOMATIC')
    kinds = [Ty('int'), Ty('bool'), Ty('str', sub='OctetString'), Ty('null'), Ty('str', sub='UTF8String')]
    m.types.append(('WideSequence', Ty('seq', comps=[Comp('c%d' % i, kinds[i % 5], 'opt' if i % 3 else None) for i in range(120)])))
    m.types.append(('WideSet', Ty('set', comps=[Comp('c%d' % i, kinds[i % 5], None if i % 3 else 'opt') for i in range(120)])))
    m.types.append(('WideEnum', Ty('enum', items=[('item-%d' % i, None) for i in range(400)])))
    out.append([m])
    m = Module('BigB', 'AUTOMATIC')
    m.types.append(('WideChoice', Ty('choice', comps=[Comp('alternative-number-%d' % i, kinds[i % 5]) for i in range(60)])))
    t = Ty('int')
    for i in range(14):
        t = Ty(['seq', 'set', 'choice'][i % 3], comps=[Comp('level-%d' % i, t), Comp('other-%d' % i, Ty('bool'))]) if i % 4 else Ty('seqof', elem=t)
    m.types.append(('Deep', t))
    out.append([m])
    m = Module('BigC', 'EXPLICIT')
    m.types.append(('Alias0', Ty('str', sub='OctetString')))
    for i in range(60):
        m.types.append(('Alias%d' % (i + 1), Ty('ref', name='Alias%d' % i)))
    m.types.append(('A' + 'very-long-name-' * 12 + 'end', Ty('seq', comps=[Comp('a' + 'very-long-name-' * 12 + 'end', Ty('ref', name='Alias60'))])))
    out.append([m])
    ms = [Module('Chain%d' % i, 'IMPLICIT') for i in range(12)]
    for i, m in enumerate(ms):
        if i:
            m.imports = [(ms[i - 1].name, ['Link%d' % (i - 1)])]
        m.types.append(('Link%d' % i, Ty('seq', comps=[Comp('down', Ty('ref', name='Link%d' % (i - 1)) if i else Ty('int')), Comp('here', Ty('int'))])))
    out.append(ms)
    # COMPONENTS OF a type with COMPONENTS OF in the type of a component, in every order
    for i, order in enumerate(itertools.permutations(('Outer', 'Middle', 'Inner', 'Last'))):
        for deep in (False, True):
            z = Comp('z', Ty('bool'))
            z.of = 'Inner'
            y = Ty('seq', comps=([Comp('m', Ty('seq', comps=[Comp('q', Ty('null'))]))] if deep else []) + [z])
            x, w = Comp('x', Ty('int')), Comp('y', y)
            x.of = w.of = 'Middle'
            d = {'Outer': Ty('seq', comps=[x, w]), 'Middle': Ty('seq', comps=[Comp('x', Ty('int')), Comp('y', copy.deepcopy(y))]), 'Inner': Ty('seq', comps=[Comp('z', Ty('bool'))]),
                 'Last': Ty('set', comps=[Comp('l', Ty('seqof', elem=copy.deepcopy(y)))])}
            m = Module('Nested%d%s' % (i, 'D' if deep else 'F'), ('AUTOMATIC', 'EXPLICIT', None)[i % 3])
            m.types = [(n, d[n]) for n in order]
            out.append([m])
    return out


KEYWORDS = '''alignas alignof and and_eq asm auto bitand bitor bool break case catch char class compl concept const constexpr continue decltype
default delete do double else enum explicit export extern false float for friend goto if import inline int long module mutable namespace new
noexcept not not_eq nullptr operator or or_eq private protected public register requires return short signed sizeof static struct switch
template this throw true try typedef typeid typename union unsigned using virtual void volatile while xor xor_eq override final co-await
static-cast char8-t thread-local size-t uint8-t int64-t std absl fast-ber string vector optional empty get variant visit begin end size
value type id identifier class-name encode decode encoded-length output input res iterator view buffer content data name index swap error
fmt main errno assert stdin explicit-id double-id universal-tag storage-mode self other rhs lhs ok base impl t i n m span out in os
is-default has-value value-or emplace reset clear front back push-back insert erase max min abs exp log time tag tag-number'''.split()
TYPES = '''Integer Boolean Null Real Enumerated OctetString BitString ObjectIdentifier Optional Default Choice Sequence Set SequenceOf SetOf
Any Id ExplicitId DoubleId Tag Class UniversalTag Construction StorageMode BerView BerViewIterator BerContainer EncodeResult DecodeResult
StringImpl EOF Identifier Error Variant Span String Vector Std Absl Std-string T Contained Values Nothing Storage ToType
AcceptedType ExactlyOnce Empty Int64 AliasedType Uint8 Main EOF-type Value Name Type Data Length Output Input Hpp Fast-ber
IA5-string Printable Detail Dynamic Abbreviations Index Max Result Encode Decode Node Args U C I N Ip Il Lhs Rhs Visitor Static Base Self'''.split()


def name_schemas():
    """names that mean something in C++, in the library or in the generated code"""
    out = []
    words = [w.replace('_', '-') for w in KEYWORDS]
    words = [w for w in dict.fromkeys(words) if w not in ('true', 'false')] + ['true', 'false']
    for k in range(0, len(words), 24):
        ws = words[k:k + 24]
        m = Module('Words%d' % k, 'AUTOMATIC')
        m.types.append(('AsComponents', Ty('seq', comps=[Comp(w, Ty('int'), [None, 'opt'][i % 2]) for i, w in enumerate(ws)])))
        m.types.append(('AsDefaults', Ty('set', comps=[Comp(w, Ty('int'), 'def', '5', 5) for w in ws])))
        m.types.append(('AsAlternatives', Ty('choice', comps=[Comp(w, Ty('bool')) for w in ws])))
        m.types.append(('AsItems', Ty('enum', items=[(w, None) for w in ws])))
        m.types.append(('Nested', Ty('seq', comps=[Comp(w, Ty('seq', comps=[Comp(w, Ty('choice', comps=[Comp(w, Ty('int')), Comp('x', Ty('null'))]))]), 'opt') for w in ws[::3]])))
        m.types.append(('Lists', Ty('seq', comps=[Comp(w, Ty('seqof', elem=Ty('enum', items=[(w, None), ('zz', None)]))) for w in ws[1::3]])))
        out.append([m])
    for k in range(0, len(TYPES), 10):
        ts = TYPES[k:k + 10]
        m = Module('Types%d' % k, 'EXPLICIT')
        bodies = [lambda i: Ty('int'), lambda i: Ty('seq', comps=[Comp('a', Ty('bool')), Comp('b', Ty('str', sub='UTF8String'), 'opt')]),
                  lambda i: Ty('choice', comps=[Comp('a', Ty('bool')), Comp('b', Ty('int'))]), lambda i: Ty('enum', items=[('a', None), ('b', None)]),
                  lambda i: Ty('seqof', elem=Ty('int')), lambda i: Ty('str', sub='OctetString')]
        for i, n in enumerate(ts):
            t = bodies[(i + k // 10) % 6](i)
            m.types.append((n, t if i % 3 else Ty('tag', cls=2, num=i, mode=None, inner=t)))
        kinds = [lambda: Ty('seqof', elem=Ty('int')), lambda: Ty('choice', comps=[Comp('a', Ty('null'))]), lambda: Ty('enum', items=[('a', None)]), lambda: Ty('setof', elem=Ty('seq', comps=[Comp('q', Ty('int'))])),
                 lambda: Ty('int'), lambda: Ty('set', comps=[Comp('a', Ty('bool'), 'opt')]), lambda: Ty('str', sub='BitString'), lambda: Ty('oid'), lambda: Ty('time'), lambda: Ty('real'), lambda: Ty('null'), lambda: Ty('bool')]
        # the generated code names the type of each component after it
        for k2 in range(3):
            m.types.append(('Members%d' % k2, Ty(['seq', 'set'][k2 % 2], comps=[Comp(n[0].lower() + n[1:], Ty('tag', cls=2, num=i, mode=None, inner=kinds[(i + 5 * k2) % 12]()), ['opt', None][i % 2]) for i, n in enumerate(ts) if n != 'EOF'])))
            m.types.append(('Alternatives%d' % k2, Ty('choice', comps=[Comp(n[0].lower() + n[1:], Ty('tag', cls=2, num=i, mode=None, inner=kinds[(i + 5 * k2) % 12]())) for i, n in enumerate(ts) if n != 'EOF'])))
        m.types.append(('User', Ty('seq', comps=[Comp(n[0].lower() + n[1:], Ty('tag', cls=2, num=i, mode=None, inner=Ty('ref', name=n)), [None, 'opt'][i % 2]) for i, n in enumerate(ts) if n != 'EOF'])))
        out.append([m])
    return out


def limit_schemas():
    """forms the compiler is known not to handle; each failure is a finding of its own"""
    out = []

    def add(key, *types):
        m = Module('Limit%d' % len(out), 'AUTOMATIC')
        m.types += types
        out.append(([m], 'limit:' + key, schema.PLAIN))
    self = Ty('ref', name='Message')
    add('recursive-sequence-in-choice', ('Message', Ty('choice', comps=[Comp('pair', Ty('seq', comps=[Comp('l', self), Comp('r', self)])), Comp('none', Ty('null'))])))
    add('recursive-sequence-in-choice-in-sequence', ('Message', Ty('seq', comps=[Comp('op', Ty('choice', comps=[Comp('not', Ty('seq', comps=[Comp('l', self)])), Comp('none', Ty('null'))]))])))
    add('type-named-like-values-of-enumerated', ('Colour', Ty('enum', items=[('red', None), ('blue', None)])), ('ColourValues', Ty('seqof', elem=Ty('ref', name='Colour'))))
    add('type-named-unnamed-sequence', ('UnnamedSequence0', Ty('seq', comps=[Comp('a', Ty('int'))])), ('List', Ty('seqof', elem=Ty('seq', comps=[Comp('b', Ty('bool'))]))))
    return out


USE11 = '''#include <sstream>
template <typename T>
int use()
{
    T a, b(a), c(std::move(b));
    b = a;
    c = std::move(b);
    uint8_t buffer[100];
    const fast_ber::EncodeResult e = a.encode(absl::Span<uint8_t>(buffer, sizeof buffer));
    const fast_ber::DecodeResult d = c.decode(fast_ber::BerView(absl::Span<const uint8_t>(buffer, e.success ? e.length : 0)));
    std::ostringstream os;
    os << c;
    return static_cast<int>(a.encoded_length()) + d.success + (a == c);
}
'''


def library_supports(cc, std, d):
    """whether the library by itself compiles under the language version: what the generated code is held to"""
    ts = ['Integer<>', 'Boolean<>', 'BitString<>', 'OctetString<>', 'Null<>', 'ObjectIdentifier<>', 'Real<>', 'UTF8String<>', 'GeneralizedTime<>', 'SequenceOf<Integer<>>', 'SequenceOf<Boolean<>, ExplicitId<UniversalTag::sequence_of>, StorageMode::dynamic>',
          'Optional<Integer<>>', 'Optional<Boolean<>>']
    p = os.path.join(d, 'library-%s-%s.cpp' % (cc, std))
    with open(p, 'w') as f:
        f.write('#include "fast_ber/ber_types/All.hpp"\n#include "fast_ber/util/Extract.hpp"\n' + USE11 + 'using namespace fast_ber;\ntemplate <typename T> int hold() { T a, b(a); b = std::move(a); a = b; return a == b; }\nint main() { return hold<Choice<Choices<Integer<>, Boolean<>>>>()%s; }\n' % ''.join(' + use<%s>()' % t for t in ts))
    x = build.sh([cc, '-std=' + std, '-w', '-fsyntax-only', '-I' + build.REPO + '/include', p])
    return x.returncode == 0


def c19(chk):
    chk.rule = 'distinct schema texts compiled to C++ whose every type the C++ compiler then instantiated; a schema counts once per way of writing it'
    rng = rng_for('C19')
    origs = schemas(rng, scale(12, 150))
    texts = [(o, 'plain', schema.PLAIN) for o in origs + big_schemas() + name_schemas()]
    texts += limit_schemas()
    texts = [(o, k, [(m.name + '.asn', schema.module_text(m, st)) for m in o]) for o, k, st in texts]
    for o in origs:
        for _ in range(scale(1, 3)):
            v = variants.rewrite(o, rng)
            if schema.valid(v) is None:
                texts.append((v, '+'.join(v.done), v.files))
        # the same definitions, modules and files in other orders
        v = variants.rewrite(o, rng, ['order'])
        texts.append((v, 'order', v.files))
    exe = build.build_compiler()
    d = build.sub('schemas')
    stds = [(cc, std) for cc in ('g++', 'clang++') for std in ('c++11', 'c++14', 'c++17', 'c++20')]
    stds = {x: y for x, y in zip(stds, build.parallel([lambda a=a: library_supports(a[0], a[1], d) for a in stds]))}
    chk.event('language versions and compilers the library by itself compiles with', sum(stds.values()))

    def one(i, mods, kind, files):
        """-> [(key, what, replay)], events"""
        sd, od = os.path.join(d, 's%d' % i), os.path.join(d, 's%d-again' % i)
        outs = []
        for k, x in enumerate((sd, od)):
            os.makedirs(x, exist_ok=True)
            fs = []
            for n, t in files:
                fs.append(os.path.join(x, n))
                with open(fs[-1], 'w', newline='') as f:
                    f.write(t)
            env = {'TZ': 'Asia/Tokyo', 'LC_ALL': 'C.UTF-8', 'HOME': x, 'MALLOC_PERTURB_': '165'} if k else None
            r = gensuite.run_compiler(exe, fs, os.path.join(x, 'gen'), env)
            outs.append((r, {n: open(os.path.join(x, n), 'rb').read() if os.path.exists(os.path.join(x, n)) else None for n in ('gen.hpp', 'gen.fwd.hpp', 'gen.detail.hpp')}))
        rep = {'files': [[n, t] for n, t in files], 'rewrites': kind}
        r = outs[0][0]
        if r.returncode:
            msg = r.stderr.decode(errors='replace').strip()[-400:]
            return [('refused:' + normal(msg), 'the compiler refuses a valid schema (%s) with exit status %d: %s' % (kind, r.returncode, msg), rep)]
        res = []
        if outs[0][1] != outs[1][1]:
            n = [n for n in outs[0][1] if outs[0][1][n] != outs[1][1][n]][0]
            res.append(('not-deterministic', 'compiling the same files twice gives different ' + n, rep))
        src, types = cppgen.tu(mods, 's%d' % i, 'gen.hpp', 'ED')
        cpp = os.path.join(sd, 'tu.cpp')
        with open(cpp, 'w') as f:
            f.write(src)
        two = i % scale(6, 3) == 0
        cc, std = (('g++', 'c++14'), ('clang++', 'c++17'), ('g++', 'c++20'), ('clang++', 'c++14'))[i % 4]
        if not stds[cc, std]:
            std = 'c++17'
        common = [cc, '-std=' + std, '-w', '-O0', '-I' + build.REPO + '/include', '-I' + build.CPP, '-I' + sd]
        x = compile_cpp(common + (['-c', cpp, '-o', cpp + '.o'] if two else ['-fsyntax-only', cpp]))
        if x is None:
            return res, ['C++ compiler gave no answer'], 0
        if x.returncode:
            err = x.stderr.decode(errors='replace')
            e = '\n'.join(l for l in err.split('\n') if 'error' in l)[:1500] or err[:1500]
            return res + [('invalid-c++:' + normal(e), 'the C++ generated for a valid schema (%s) does not compile with %s -std=%s: %s' % (kind, cc, std, e), dict(rep, errors=e))]
        ev = ['C++ compiled by %s -std=%s' % (cc, std)]
        if two:
            # a second translation unit of the same program
            cpp2 = os.path.join(sd, 'tu2.cpp')
            with open(cpp2, 'w') as f:
                f.write('#include "gen.hpp"\n#include "gen.hpp"\nunsigned long size_of_all() { return 0%s; }\n' % ''.join(' + sizeof(%s)' % t.cpp for t in types))
            x = compile_cpp(common + ['-c', cpp2, '-o', cpp2 + '.o'])
            if x is None:
                return res, ['C++ compiler gave no answer'], 0
            if x.returncode:
                e = x.stderr.decode(errors='replace')[:1500]
                return res + [('invalid-c++:' + normal(e), 'a second translation unit does not compile (%s): %s' % (kind, e), rep)]
            x = build.sh([cc, '-r', '-nostdlib', cpp + '.o', cpp2 + '.o', '-o', cpp + '.both.o'])
            if x.returncode:
                e = x.stderr.decode(errors='replace')[:1500]
                res.append(('two-units:' + normal(e), 'the generated code cannot be used in two translation units of one program (%s): %s' % (kind, e), rep))
            else:
                ev.append('linked into two translation units')
            # the library is written in C++11
            cpp3 = os.path.join(sd, 'tu11.cpp')
            cc3 = ('clang++', 'g++')[i // scale(6, 3) % 2]
            with open(cpp3, 'w') as f:
                f.write('#include "gen.hpp"\n' + USE11 + 'int main() { return 0%s; }\n' % ''.join(' + use<%s>()' % t.cpp for t in types))
            x = compile_cpp([cc3, '-std=c++11' if stds[cc3, 'c++11'] else '-std=c++17', '-w', '-fsyntax-only', '-I' + build.REPO + '/include', '-I' + sd, cpp3])
            if x is None:
                return res, ['C++ compiler gave no answer'], 0
            if x.returncode:
                e = '\n'.join(l for l in x.stderr.decode(errors='replace').split('\n') if 'error' in l)[:1500]
                return res + [('invalid-c++:' + normal(e), 'the generated code is no valid C++11 (%s): %s' % (kind, e), rep)]
            ev.append('used as C++11' if stds[cc3, 'c++11'] else 'used as C++17')
            for o in (cpp + '.o', cpp2 + '.o', cpp + '.both.o'):
                if os.path.exists(o):
                    os.remove(o)
        return res, ev, len(types)
    if chk.replaying is not None:
        texts = [t for t in texts if [list(f) for f in t[2]] == chk.replaying.get('files')]
    rs = build.parallel([lambda i=i, t=t: one(i, *t) for i, t in enumerate(texts)])
    for (mods, kind, files), r in zip(texts, rs):
        chk.case(nontrivial=str(files))
        ev, n = [], 0
        if isinstance(r, tuple):
            r, ev, n = r
            chk.event('schemas compiled')
            chk.event('byte-identical outputs of two compilations', 0 if r else 1)
            chk.event('generated types instantiated', n)
        for x in kind.split('+'):
            chk.event('schemas written as: ' + (x or 'plain'))
        for e in ev:
            chk.event(e)
        for k, what, rep in r:
            chk.violation(kind if kind.startswith('limit:') else k, what, rep)
    if chk.events.get('C++ compiler gave no answer', 0) > len(texts) // 5:
        raise build.HarnessError('the C++ compiler gave no answer for %d of %d schemas' % (chk.events['C++ compiler gave no answer'], len(texts)))
    for t in texts[:: max(1, len(texts) // 8)]:
        chk.sample(' '.join(t[2][0][1].split())[:400])
    chk.assumptions.append('the generated schemas are valid and use only what the README lists as supported; g++ 13 and clang 18 decide what valid C++ is')
