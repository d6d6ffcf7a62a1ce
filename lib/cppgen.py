"""Driver code for types generated by the project's ASN.1 compiler. Components are accessed by name, alternatives by position."""
from lib import schema
from lib.schema import Resolver


class Code:
    def __init__(self, modules, prefix):
        self.mods, self.res = modules, Resolver(modules)
        self.prefix = prefix
        self.ids = {}
        self.keep = []
        self.decl, self.body = [], []

    def node(self, t, m):
        """number of the functions for a type; refs share the functions of their target"""
        t, m = self.res.base(t, m)
        k = self.ids.get(id(t))
        if k is not None:
            return k
        k = self.ids[id(t)] = '%s_%d' % (self.prefix, len(self.ids))
        self.keep.append(t)
        self.decl.append('template <typename T> void b%s(vf::Reader&, T&); template <typename T> void d%s(vf::Out&, const T&);' % (k, k))
        b = d = ''
        if t.kind in ('seq', 'set'):
            b, d = "r.expect('{');", "o.put('{');"
            if t.comps:
                b += ''.join(' auto& m%d = v.%s;' % (i, member(c.name)) for i, c in enumerate(t.comps))
                d += ''.join(' const auto& m%d = v.%s;' % (i, member(c.name)) for i, c in enumerate(t.comps))
            for i, c in enumerate(t.comps):
                n = self.node(c.ty, m)
                if c.opt == 'opt':
                    b += "\n    if (r.accept('-')) m%d = fast_ber::empty; else { r.expect('+'); m%d.emplace(); b%s(r, *m%d); }" % (i, i, n, i)
                    d += "\n    if (!m%d.has_value()) o.put('-'); else { o.put('+'); d%s(o, *m%d); }" % (i, n, i)
                elif c.opt == 'def':
                    b += "\n    if (r.accept('-')) m%d.set_to_default(); else { r.expect('+'); std::decay_t<decltype(m%d.get())> t; b%s(r, t); m%d = t; }" % (i, i, n, i)
                    d += "\n    o.put(m%d.is_default() ? 'd' : 'x'); d%s(o, m%d.get());" % (i, n, i)
                else:
                    b += '\n    b%s(r, m%d);' % (n, i)
                    d += '\n    d%s(o, m%d);' % (n, i)
            b += "\n    r.expect('}');"
            d += "\n    o.put('}');"
        elif t.kind == 'choice':
            b = "r.expect('c'); const int64_t i = r.num(':'); switch (i) {"
            d = "o.put('c'); if (v.index() >= %d) { o.put('!'); return; } o.num(static_cast<int64_t>(v.index()), ':'); switch (v.index()) {" % len(t.comps)
            for i, c in enumerate(t.comps):
                n = self.node(c.ty, m)
                b += '\n    case %d: v.template emplace<%d>(); b%s(r, fast_ber::get<%d>(v)); break;' % (i, i, n, i)
                d += '\n    case %d: d%s(o, fast_ber::get<%d>(v)); break;' % (i, n, i)
            b += '\n    default: vf::bad("choice index"); }'
            d += '\n    }'
        elif t.kind in ('seqof', 'setof'):
            n = self.node(t.elem, m)
            b = "r.expect('['); const int64_t n = r.num(':'); v.clear(); for (int64_t i = 0; i < n; i++) { v.emplace_back(); b%s(r, v.back()); } r.expect(']');" % n
            d = "o.put('['); o.num(static_cast<int64_t>(v.size()), ':'); for (const auto& x : v) d%s(o, x); o.put(']');" % n
        else:
            b, d = 'fast_ber::vf_build(r, v);', 'fast_ber::vf_dump(o, v);'
        self.body.append('template <typename T> void b%s(vf::Reader& r, T& v) { (void)r; (void)v; %s }\ntemplate <typename T> void d%s(vf::Out& o, const T& v) { (void)o; (void)v; %s }' % (k, b, k, d))
        return k


# reserved names get an underscore in the generated code
RESERVED = set('''alignas alignof and and_eq asm auto bitand bitor bool break case catch char class compl concept const constexpr continue
decltype default delete do double else enum explicit export extern false float for friend goto if import inline int long module mutable
namespace new noexcept not not_eq nullptr operator or or_eq private protected public register requires return short signed sizeof static
struct switch template this throw true try typedef typeid typename union unsigned using virtual void volatile while xor xor_eq
atomic_cancel atomic_commit atomic_noexcept char8_t char16_t char32_t consteval const_cast co_await co_return co_yield dynamic_cast reflexpr
reinterpret_cast static_assert static_cast synchronized thread_local wchar_t EOF errno stderr stdin stdout
AcceptedIndex AcceptedType AliasedType AsnId BMPString BerView BitString Boolean CharacterString Choice Choices Class Construction Date DateTime DecodeResult
Default DoubleId Duration EmbeddedPDV EncodeResult Enumerated ExactlyOnce ExplicitId External GeneralString GeneralizedTime GraphicString IA5String IRI
ISO646String Id Identifier InstanceOf Integer IsChoiceId Null NumericString ObjectIdentifier OctetString Optional Prefixed PrintableString Real
RelativeIRI RelativeOID Sequence SequenceOf Set SetOf Storage StorageMode TaggedType TeletexString Time TimeOfDay ToType ToTypeImpl UTCTime
UTF8String UniversalTag UniversalString VideotexString VisibleString decode encode encoded_length size_t uint8_t'''.split())


def member(n):
    n = cname(n)
    return n + '_' if n in RESERVED else n


def cname(n):
    return n.replace('-', '_')


class GT:
    """a generated top-level type, for lib.wire"""

    def __init__(self, name, w, group, desc, cpp):
        self.name, self.w, self.group, self.desc, self.cpp = name, w, group, desc, cpp


def group_of(w, tagged):
    return w.kind + ('-tagged' if tagged else '')


def tu(modules, prefix, header, ops):
    """-> (source text, [GT])"""
    code = Code(modules, prefix)
    types, tail = [], ''
    for m in modules:
        for n, t in m.types:
            k = code.node(t, m)
            cpp = '::fast_ber::%s::%s' % (m.cpp(), member(n))
            w = code.res.w(t, m)
            name = '%s_%s_%s' % (prefix, m.cpp(), cname(n))
            types.append(GT(name, w, group_of(w, t.kind == 'tag'), '%s.%s ::= %s' % (m.name, n, schema.text(t)), cpp))
            types[-1].mod, types[-1].tname = m.name, n
            tail += 'namespace fast_ber { namespace %s {\ninline void vf_build(vf::Reader& r, %s& v) { vfg::b%s(r, v); }\ninline void vf_dump(vf::Out& o, const %s& v) { vfg::d%s(o, v); }\n}}\n' % (m.cpp(), cpp, k, cpp, k)
    regs = ''.join('static vf::Reg reg%d("%s", &vf::run_type<%s>);\n' % (i, t.name, t.cpp) for i, t in enumerate(types))
    src = '#define VF_OPS "%s"\n#include "vf.hpp"\n#include "%s"\nnamespace vfg {\n%s\n%s\n}\n%snamespace {\n%s}\n' % (ops, header, '\n'.join(code.decl), '\n'.join(code.body), tail, regs)
    return src, types
