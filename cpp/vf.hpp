// Common harness code: neutral value text <-> fast_ber objects, monitored operations, case loop.
// Everything here judges behaviour through the public API only.
#pragma once

#include "fast_ber/ber_types/All.hpp"
#include "fast_ber/util/BerContainer.hpp"

#if __has_include(<sanitizer/allocator_interface.h>)
#include <sanitizer/allocator_interface.h>
#endif

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <streambuf>
#include <atomic>
#include <string>
#include <thread>
#include <type_traits>
#include <vector>

#include <sched.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>

namespace vf
{
struct BadCase
{
    std::string what;
};

[[noreturn]] inline void bad(const std::string& s) { throw BadCase{s}; }

struct Reader
{
    const char* p;
    const char* e;
    Reader(const std::string& s) : p(s.data()), e(s.data() + s.size()) {}
    bool done() const { return p == e; }
    char peek() const { return p < e ? *p : '\0'; }
    char get()
    {
        if (p == e)
            bad("eof in value text");
        return *p++;
    }
    void expect(char c)
    {
        if (get() != c)
            bad(std::string("expected '") + c + "' before '" + std::string(p, std::min<size_t>(20, e - p)) + "'");
    }
    bool accept(char c)
    {
        if (peek() == c)
        {
            ++p;
            return true;
        }
        return false;
    }
    // digits up to terminator, terminator consumed
    std::string until(char t)
    {
        const char* q = static_cast<const char*>(memchr(p, t, e - p));
        if (!q)
            bad("unterminated token");
        std::string r(p, q);
        p = q + 1;
        return r;
    }
    int64_t num(char t) { return std::strtoll(until(t).c_str(), nullptr, 10); }
    static int hexd(char c)
    {
        if (c >= '0' && c <= '9')
            return c - '0';
        if (c >= 'a' && c <= 'f')
            return c - 'a' + 10;
        bad("bad hex");
    }
    std::string hex(size_t n)
    {
        std::string r;
        r.resize(n);
        if (static_cast<size_t>(e - p) < 2 * n)
            bad("short hex");
        for (size_t i = 0; i < n; i++, p += 2)
            r[i] = static_cast<char>(hexd(p[0]) * 16 + hexd(p[1]));
        return r;
    }
};

struct Out
{
    std::string s;
    void        put(char c) { s += c; }
    void        str(const std::string& x) { s += x; }
    void        num(int64_t v, char t)
    {
        s += std::to_string(v);
        s += t;
    }
    void hex(const void* d, size_t n)
    {
        static const char* h = "0123456789abcdef";
        const auto*        b = static_cast<const unsigned char*>(d);
        for (size_t i = 0; i < n; i++)
        {
            s += h[b[i] >> 4];
            s += h[b[i] & 15];
        }
    }
};

// ---- exactly sized heap memory, so that ASan sees every byte beyond it ----
struct Heap
{
    uint8_t* p;
    size_t   n;
    explicit Heap(size_t size, int fill = 0xA5) : p(static_cast<uint8_t*>(std::malloc(size))), n(size)
    {
        if (n)
            std::memset(p, fill, n);
    }
    explicit Heap(const std::string& d) : Heap(d.size())
    {
        if (n)
            std::memcpy(p, d.data(), n);
    }
    Heap(const Heap&) = delete;
    ~Heap()
    {
        if (n)
            std::memset(p, 0xDD, n);
        std::free(p);
    }
    absl::Span<uint8_t>       span() { return absl::Span<uint8_t>(p, n); }
    absl::Span<const uint8_t> cspan() const { return absl::Span<const uint8_t>(p, n); }
};

template <typename T>
struct Tag
{
    using type = T;
};
} // namespace vf

namespace fast_ber
{
// ---------- neutral text -> object ----------
template <typename I>
void vf_build(vf::Reader& r, Boolean<I>& v)
{
    char c = r.get();
    v      = (c == 'T');
}
template <typename I>
void vf_build(vf::Reader& r, Integer<I>& v)
{
    r.expect('i');
    v = r.num(';');
}
template <typename E, typename I>
void vf_build(vf::Reader& r, Enumerated<E, I>& v)
{
    r.expect('e');
    v = static_cast<E>(r.num(';'));
}
template <typename I>
void vf_build(vf::Reader& r, Null<I>&)
{
    r.expect('n');
}
template <typename I>
void vf_build(vf::Reader& r, Real<I>& v)
{
    r.expect('r');
    uint64_t bits = std::strtoull(r.until(';').c_str(), nullptr, 16);
    double   d;
    std::memcpy(&d, &bits, 8);
    v = d;
}
template <UniversalTag t, typename I>
void vf_build(vf::Reader& r, StringImpl<t, I>& v)
{
    r.expect('s');
    size_t      n = static_cast<size_t>(r.num(':'));
    std::string s = r.hex(n);
    v             = s;
}
template <typename I>
void vf_build(vf::Reader& r, ObjectIdentifier<I>& v)
{
    r.expect('o');
    ObjectIdentifierComponents c;
    for (;;)
    {
        std::string n;
        while (r.peek() != '.' && r.peek() != ';')
            n += r.get();
        if (!n.empty())
            c.push_back(std::strtoll(n.c_str(), nullptr, 10));
        if (r.get() == ';')
            break;
    }
    // o; is the default constructed (empty) value
    if (!c.empty() && !v.assign(c))
        vf::bad("oid refused");
}
template <typename I>
void vf_build(vf::Reader& r, GeneralizedTime<I>& v)
{
    // gz<unix seconds>;  universal   go<seconds>,<offset minutes>; universal with offset
    r.expect('g');
    char k = r.get();
    if (k == 'z')
        v.set_time(absl::FromUnixSeconds(r.num(';')));
    else if (k == 'o')
    {
        int64_t s = r.num(',');
        v.set_time(absl::FromUnixSeconds(s), static_cast<int>(r.num(';')));
    }
    else
        vf::bad("time kind");
}
template <typename T, StorageMode s>
void vf_build(vf::Reader& r, Optional<T, s>& v)
{
    if (r.accept('-'))
    {
        v = empty;
        return;
    }
    r.expect('+');
    v.emplace();
    vf_build(r, *v);
}
template <typename T, typename D>
void vf_build(vf::Reader& r, Default<T, D>& v)
{
    if (r.accept('-'))
    {
        v.set_to_default();
        return;
    }
    r.expect('+');
    T t;
    vf_build(r, t);
    v = t;
}
template <typename T, typename I, StorageMode s>
void vf_build(vf::Reader& r, SequenceOf<T, I, s>& v)
{
    r.expect('[');
    int64_t n = r.num(':');
    v.clear();
    for (int64_t i = 0; i < n; i++)
    {
        v.emplace_back();
        vf_build(r, v.back());
    }
    r.expect(']');
}

// ---------- object -> neutral text ----------
template <typename I>
void vf_dump(vf::Out& o, const Boolean<I>& v)
{
    o.put(v.value() ? 'T' : 'F');
}
template <typename I>
void vf_dump(vf::Out& o, const Integer<I>& v)
{
    o.put('i');
    o.num(v.value(), ';');
}
template <typename E, typename I>
void vf_dump(vf::Out& o, const Enumerated<E, I>& v)
{
    o.put('e');
    o.num(static_cast<int64_t>(v.value()), ';');
}
template <typename I>
void vf_dump(vf::Out& o, const Null<I>&)
{
    o.put('n');
}
template <typename I>
void vf_dump(vf::Out& o, const Real<I>& v)
{
    double   d = v.value();
    uint64_t b;
    std::memcpy(&b, &d, 8);
    char buf[32];
    std::snprintf(buf, sizeof buf, "r%016llx;", static_cast<unsigned long long>(b));
    o.str(buf);
}
template <UniversalTag t, typename I>
void vf_dump(vf::Out& o, const StringImpl<t, I>& v)
{
    o.put('s');
    o.num(static_cast<int64_t>(v.length()), ':');
    const std::string x = v.value();
    o.hex(x.data(), x.size());
    // every accessor agrees
    const auto sp = v.span();
    if (sp.size() != x.size() || (!x.empty() && std::memcmp(sp.data(), x.data(), x.size()) != 0) ||
        v.size() != x.size() || v.empty() != x.empty() || std::string(v.begin(), v.end()) != x ||
        absl::string_view(v) != x)
        o.str("!accessor");
}
template <typename I>
void vf_dump(vf::Out& o, const ObjectIdentifier<I>& v)
{
    o.put('o');
    const auto c = v.value();
    for (size_t i = 0; i < c.size(); i++)
    {
        if (i)
            o.put('.');
        o.str(std::to_string(c[i]));
    }
    o.put(';');
}
template <typename I>
void vf_dump(vf::Out& o, const GeneralizedTime<I>& v)
{
    o.put('t');
    const std::string x = v.string();
    o.num(static_cast<int64_t>(x.size()), ':');
    o.hex(x.data(), x.size());
}
template <typename T, StorageMode s>
void vf_dump(vf::Out& o, const Optional<T, s>& v)
{
    if (!v.has_value())
    {
        o.put('-');
        return;
    }
    o.put('+');
    vf_dump(o, *v);
}
template <typename T, typename D>
void vf_dump(vf::Out& o, const Default<T, D>& v)
{
    o.put(v.is_default() ? 'd' : 'x');
    vf_dump(o, v.get());
}
template <typename T, typename I, StorageMode s>
void vf_dump(vf::Out& o, const SequenceOf<T, I, s>& v)
{
    o.put('[');
    o.num(static_cast<int64_t>(v.size()), ':');
    for (const T& x : v)
        vf_dump(o, x);
    o.put(']');
}
// raw library Choice
template <typename... Ts, typename I, StorageMode s>
void vf_dump(vf::Out& o, const Choice<Choices<Ts...>, I, s>& v)
{
    o.put('c');
    if (v.index() >= sizeof...(Ts))
    {
        o.put('!'); // moved from
        return;
    }
    o.num(static_cast<int64_t>(v.index()), ':');
    fast_ber::visit([&](const auto& x) { vf_dump(o, x); }, v);
}
template <size_t i, typename C>
struct VfChoiceBuild
{
    static void go(vf::Reader& r, size_t idx, C& c)
    {
        if (idx == i - 1)
        {
            c.template emplace<i - 1>();
            vf_build(r, *fast_ber::get_if<i - 1>(&c));
        }
        else
            VfChoiceBuild<i - 1, C>::go(r, idx, c);
    }
};
template <typename C>
struct VfChoiceBuild<0, C>
{
    static void go(vf::Reader&, size_t, C&) { vf::bad("choice index"); }
};
template <typename... Ts, typename I, StorageMode s>
void vf_build(vf::Reader& r, Choice<Choices<Ts...>, I, s>& v)
{
    r.expect('c');
    size_t idx = static_cast<size_t>(r.num(':'));
    VfChoiceBuild<sizeof...(Ts), Choice<Choices<Ts...>, I, s>>::go(r, idx, v);
}

// element types, looking through FAST_BER_ALIAS
// accessors which vf_dump does not use
template <typename T>
void vf_touch(vf::Out&, const T&)
{
}
template <typename I>
void vf_touch(vf::Out& o, const GeneralizedTime<I>& v)
{
    o.num(static_cast<int>(v.format()), ',');
    try
    {
        o.num(absl::ToUnixSeconds(v.time()), ';');
    }
    catch (const std::exception&)
    {
        o.str("none;");
    }
    GeneralizedTime<I> own;
    own.set_time(absl::CivilSecond(2020, 2, 29, 12, 30, 31));
    vf_dump(o, own);
    own.set_time(absl::FromUnixSeconds(1582934400), 90);
    vf_dump(o, own);
}
template <typename I>
void vf_touch(vf::Out& o, const ObjectIdentifier<I>& v)
{
    const size_t n = v.number_of_components();
    o.num(static_cast<int64_t>(n), ':');
    for (size_t i = 0; i <= n && i < 20; i++)
        o.num(v.component_number(i), ',');
}
template <UniversalTag t, typename I>
void vf_touch(vf::Out& o, const StringImpl<t, I>& v)
{
    for (const auto& c : v)
        o.put(static_cast<char>(c == '\n' ? 'n' : c));
    o.num(static_cast<int64_t>(v.size()), ';');
}

template <typename T, StorageMode s>
vf::Tag<T> vf_inner(const Optional<T, s>*);
template <typename T, typename D>
vf::Tag<T> vf_inner(const Default<T, D>*);
template <typename T, typename I, StorageMode s>
vf::Tag<T> vf_inner(const SequenceOf<T, I, s>*);

// Any and Choice used standalone: the historical entry points
template <typename C>
struct VfRawChoice : C
{
    using C::C;
    VfRawChoice() = default;
    std::size_t  encoded_length() const noexcept { return this->encoded_length_old(); }
    EncodeResult encode(absl::Span<uint8_t> output) const noexcept { return this->encode_old(output); }
    DecodeResult decode(BerView input) noexcept { return this->decode_old(input); }
};
} // namespace fast_ber

namespace vf
{
template <typename X>
using Inner = typename decltype(vf_inner(static_cast<const X*>(nullptr)))::type;

inline bool contains(char c, const char* set) { return std::strchr(set, c) != nullptr; }

template <typename T>
std::string dump(const T& t)
{
    Out o;
    vf_dump(o, t);
    return o.s;
}

template <typename T>
T make(const std::string& text)
{
    Reader r(text);
    T      t;
    vf_build(r, t);
    if (!r.done())
        bad("trailing value text: " + std::string(r.p, r.e));
    return t;
}

template <typename T>
std::string enc(const T& t, bool& ok)
{
    const size_t L = fast_ber::encoded_length(t);
    Heap         h(L);
    auto         res = fast_ber::encode(h.span(), t);
    ok               = res.success && res.length == L;
    return std::string(reinterpret_cast<char*>(h.p), h.n);
}

template <typename T>
std::string enc_hex(const T& t)
{
    bool        ok;
    std::string e = enc(t, ok);
    Out         o;
    if (!ok)
        o.put('!');
    o.hex(e.data(), e.size());
    return o.s;
}

struct Decoded
{
    bool        ok = false;
    std::string dump, re;
};

template <typename T>
void observe(const T& t, Decoded& d)
{
    d.dump = dump(t);
    // a moved-from choice holds nothing that could be encoded
    d.re = d.dump.find("c!") == std::string::npos ? enc_hex(t) : "!moved";
}

template <typename T>
bool decode_into(T& t, const std::string& bytes)
{
    Heap in(bytes);
    return fast_ber::decode(in.cspan(), t).success; // "in" is overwritten and freed on return
}

template <typename T, typename = void>
struct HasEq : std::false_type
{
};
template <typename T>
struct HasEq<T, decltype(void(std::declval<const T&>() == std::declval<const T&>()))> : std::true_type
{
};
template <typename T>
typename std::enable_if<HasEq<T>::value, int>::type eq(const T& a, const T& b)
{
    return (a == b) ? 1 : 0;
}
template <typename T>
typename std::enable_if<!HasEq<T>::value, int>::type eq(const T&, const T&)
{
    return 2;
}

inline std::string hexof(const std::string& s)
{
    Out o;
    o.hex(s.data(), s.size());
    return o.s;
}
inline std::string unhex(const std::string& s)
{
    Reader r(s);
    return r.hex(s.size() / 2);
}

// ---------------- operations ----------------
// E <grow> <value>: encode monitor
template <typename T>
void op_encode(Reader& a, Out& o)
{
    size_t      grow = static_cast<size_t>(a.num(' '));
    std::string text(a.p, a.e);
    const T     v = make<T>(text);
    const size_t L = fast_ber::encoded_length(v);
    o.str("L=" + std::to_string(L));
    if (L > (size_t(1) << 31))
    {
        o.str(" absurd");
        return;
    }
    std::string exact;
    {
        Heap h(L);
        auto res = fast_ber::encode(h.span(), v);
        o.str(" r=" + std::to_string(res.success) + "," + std::to_string(res.length) + " hex=");
        exact.assign(reinterpret_cast<char*>(h.p), h.n);
        o.hex(exact.data(), exact.size());
    }
    // spare space: same bytes, nothing after them touched
    std::string spare = "ok";
    for (size_t g : {size_t(1), grow, grow + 200})
    {
        for (int fill : {0x00, 0xA5})
        {
            Heap h(L + g, fill);
            auto res = fast_ber::encode(h.span(), v);
            if (!res.success || res.length != L)
                spare = "result+" + std::to_string(g);
            else if (L && std::memcmp(h.p, exact.data(), L) != 0)
                spare = "bytes+" + std::to_string(g);
            else
                for (size_t i = L; i < L + g; i++)
                    if (h.p[i] != fill)
                        spare = "tail+" + std::to_string(g) + "@" + std::to_string(i - L);
        }
    }
    o.str(" spare=" + spare);
    // too small
    std::string small = "ok";
    auto        try_small = [&](size_t n) {
        Heap h(n);
        auto res = fast_ber::encode(h.span(), v);
        if (res.success)
            small = std::to_string(n);
    };
    if (L <= 160)
        for (size_t n = 0; n < L; n++)
            try_small(n);
    else
    {
        for (size_t n = 0; n < 24; n++)
            try_small(n);
        for (size_t n = L - 24; n < L; n++)
            try_small(n);
        for (size_t k = 1; k < 16; k++)
            try_small(L * k / 16);
    }
    o.str(" small=" + small);
    // no buffer at all
    {
        auto res = fast_ber::encode(absl::Span<uint8_t>(), v);
        if (res.success != (L == 0) )
            o.str(" null=bad");
    }
    o.str(" dump=" + dump(v));
}

// D <hex>: decode monitor, fresh object; the input is overwritten and freed before the object is looked at
template <typename T>
void op_decode(Reader& a, Out& o)
{
    std::string bytes = unhex(std::string(a.p, a.e));
    T           t;
    bool        ok = decode_into(t, bytes);
    Decoded     d;
    observe(t, d); // also after failure: must be harmless
    o.str(ok ? "1 " : "0 ");
    if (ok)
        o.str(d.dump + " " + d.re);
    // the object stays usable
    T    u = t;
    bool ok2;
    enc(u, ok2);
    u = T();
    t = u;
    (void)dump(t);
}

// H seg seg ... : history. Segments: a<value> assign, d<hex> decode, c copy to a new object and use that,
// m move to a new object and use that, s self assign, x move away and keep the moved-from object.
// The last segment is a decode; prints the outcome, then that of a fresh object.
template <typename T>
void op_history(Reader& a, Out& o)
{
    std::string               all(a.p, a.e), seg;
    std::vector<std::string>  segs;
    std::stringstream         ss(all);
    while (ss >> seg)
        segs.push_back(seg);
    std::unique_ptr<T> t(new T());
    bool               ok = false;
    for (auto& g : segs)
    {
        switch (g[0])
        {
        case 'a':
        {
            const T v = make<T>(g.substr(1));
            *t        = v;
            break;
        }
        case 'd': ok = decode_into(*t, unhex(g.substr(1))); break;
        case 'c':
        {
            std::unique_ptr<T> u(new T(*t));
            t = std::move(u);
            break;
        }
        case 'm':
        {
            std::unique_ptr<T> u(new T(std::move(*t)));
            t = std::move(u);
            break;
        }
        case 's':
        {
            const T& alias = *t;
            *t             = alias;
            break;
        }
        case 'x':
        {
            T u(std::move(*t));
            (void)dump(u);
            break;
        }
        default: bad("history segment");
        }
    }
    Decoded d, f;
    observe(*t, d);
    T    fresh;
    bool fok = decode_into(fresh, unhex(segs.back().substr(1)));
    observe(fresh, f);
    o.str(ok ? "1 " : "0 ");
    if (ok)
        o.str(d.dump + " " + d.re);
    o.str(" | ");
    o.str(fok ? "1 " : "0 ");
    if (fok)
    {
        o.str(f.dump + " " + f.re);
        // fixed point
        T    again;
        bool eok;
        auto e   = enc(fresh, eok);
        bool aok = decode_into(again, e);
        o.str(aok && eok ? " | 1 " : " | 0 ");
        Decoded g;
        observe(again, g);
        o.str(g.dump + " " + g.re);
        int e3 = 2;
        try
        {
            e3 = eq(*t, fresh);
        }
        catch (const std::exception&)
        {
            // comparing malformed time text; reading it is documented to throw
        }
        o.str(" " + std::to_string(e3));
    }
}

// V <value> <value>: value semantics. Emits a list of facts, all of which the checker knows the answer to.
template <typename T>
void op_value(Reader& a, Out& o)
{
    std::string ta = a.until(' '), tb(a.p, a.e);
    const T     va = make<T>(ta);
    T           vb = make<T>(tb);
    const std::string da = dump(va), db = dump(vb);
    const std::string ea = enc_hex(va), eb = enc_hex(vb);
    o.str("eq=" + std::to_string(eq(va, vb)) + std::to_string(eq(vb, va)) + std::to_string(eq(va, va)));
    auto fact = [&](const char* n, bool b) {
        if (!b)
            o.str(std::string(" BAD:") + n);
    };
    auto is = [&](const T& x, const std::string& d, const std::string& e) { return dump(x) == d && enc_hex(x) == e; };
    {
        T c(va);
        fact("copy", is(c, da, ea));
        fact("copy-equals", eq(c, va) == eq(va, va));
        c = vb;
        fact("copy-assign", is(c, db, eb));
        fact("source-unchanged", is(va, da, ea) && is(vb, db, eb));
        T m(std::move(c));
        fact("move", is(m, db, eb));
        c = va; // moved-from object is reusable
        fact("reuse-after-move", is(c, da, ea));
        m = std::move(c);
        fact("move-assign", is(m, da, ea));
        c = m;
        fact("reuse-after-move-assign", is(c, da, ea));
        const T& self = m;
        m             = self;
        fact("self-assign", is(m, da, ea));
        using std::swap;
        T x(va), y(vb);
        swap(x, y);
        fact("swap", is(x, db, eb) && is(y, da, ea));
    }
    {
        // mutating a copy leaves the original alone, and the other way round
        T c(va);
        {
            T d(c);
            Reader r(tb);
            vf_build(r, d);
            fact("mutate-copy", is(d, db, eb));
            fact("mutate-copy-source", is(c, da, ea));
        }
        fact("destroy-copy", is(c, da, ea));
        std::unique_ptr<T> h(new T(va));
        T                  k(*h);
        {
            Reader r(tb);
            vf_build(r, *h);
        }
        fact("mutate-source", is(k, da, ea));
        h.reset();
        fact("destroy-source", is(k, da, ea));
    }
    {
        // a decoded object owns its bytes
        bool        ok;
        std::string e = enc(va, ok);
        T           d;
        bool        dok;
        {
            Heap in(e);
            dok = fast_ber::decode(in.cspan(), d).success;
            std::memset(in.p, 0x5A, in.n);
        }
        fact("own", dok && is(d, da, ea));
        T d2(d);
        d = vb;
        fact("own-copy", is(d2, da, ea));
        d = std::move(d2);
        fact("own-move", is(d, da, ea));
        std::vector<T> many;
        for (int i = 0; i < 9; i++)
            many.push_back(i % 2 ? va : vb); // reallocation moves elements
        bool all = true;
        for (int i = 0; i < 9; i++)
            all = all && is(many[i], i % 2 ? da : db, i % 2 ? ea : eb);
        fact("vector", all);
        many.erase(many.begin() + 2);
        fact("vector-erase", is(many[2], da, ea) && is(many[3], db, eb));
    }
    fact("finally-a", is(va, da, ea));
    fact("finally-b", is(vb, db, eb));
    o.str(" dump=" + da + " " + db);
}

// P <value>: print
template <typename T>
void op_print(Reader& a, Out& o)
{
    const T            v = make<T>(std::string(a.p, a.e));
    std::ostringstream s;
    s << v;
    o.str(hexof(s.str()));
}

// L <value>: allocations of a full life cycle are all returned (second round, so that one-time statics are excluded)
struct AllocCount
{
    static long& live()
    {
        static long n = 0;
        return n;
    }
};

template <typename T>
void op_leak(Reader& a, Out& o)
{
    std::string              all(a.p, a.e), seg;
    std::vector<std::string> segs;
    std::stringstream        ss(all);
    while (ss >> seg)
        segs.push_back(seg);
    long before = 0, after = 0;
    for (int round = 0; round < 2; round++)
    {
        before = AllocCount::live();
        {
            T t;
            for (auto& g : segs)
            {
                if (g[0] == 'd')
                    decode_into(t, unhex(g.substr(1)));
                else
                {
                    T v = make<T>(g.substr(1));
                    t   = std::move(v);
                }
                T c(t);
                T m(std::move(c));
                c = t;
            }
        }
        after = AllocCount::live();
    }
    o.str(std::to_string(after - before));
}

// T <seed> <value> ... d<hex> ... : 4 threads, first on objects of their own and shared input buffers, then on shared constant objects; every
// thread's results are compared with those of a single thread, which runs last.
constexpr int threads = 4;

struct Turn
{
    std::atomic<int>      ready{0};
    std::atomic<unsigned> ticket{0};
    std::vector<uint8_t>  order;
};

// relaxed atomics do not order anything, so they hide no race
struct Pace
{
    Turn&    turn;
    int      who;
    uint64_t rng;

    void wait()
    {
        if (turn.order.empty())
            return;
        turn.ready.fetch_add(1, std::memory_order_relaxed);
        for (int i = 0; turn.ready.load(std::memory_order_relaxed) < threads && i < 2000000; i++)
        {
            if (i % 64 == 63)
                sched_yield();
        }
    }
    void step()
    {
        if (turn.order.empty())
            return;
        const unsigned t = turn.ticket.fetch_add(1, std::memory_order_relaxed);
        if (t < turn.order.size())
            turn.order[t] = static_cast<uint8_t>(who + 1);
        rng = rng * 6364136223846793005u + 1442695040888963407u;
        const unsigned r = static_cast<unsigned>(rng >> 33) % 8;
        if (r == 0)
            sched_yield();
        else if (r == 1)
            for (volatile int i = 0; i < 300; i = i + 1)
            {
            }
    }
};

template <typename T>
std::string print(const T& t)
{
    std::ostringstream s;
    s << t;
    return s.str();
}

template <typename T>
std::string all_of(const T& t, Pace& p)
{
    std::string r = dump(t);
    p.step();
    r += "|" + enc_hex(t);
    p.step();
    r += "|" + print(t);
    p.step();
    Out o;
    fast_ber::vf_touch(o, t);
    r += "|" + o.s;
    return r;
}

// with objects of its own, and the shared inputs
template <typename T>
std::string on_own(const std::vector<std::string>& texts, const std::vector<std::string>& inputs, size_t from, size_t i, Pace& p)
{
    const size_t n = texts.size() + inputs.size();
    i              = (i + from) % n;
    if (i < texts.size())
    {
        T           v = make<T>(texts[i]);
        p.step();
        std::string r = all_of(v, p);
        T           w = v;
        p.step();
        T u;
        u = w;
        r += std::to_string(eq(u, v));
        T m = std::move(u);
        p.step();
        r += "|" + dump(m);
        w  = T();
        r += std::to_string(eq(w, m));
        r += "|" + dump(w);
        return r;
    }
    const std::string&             b = inputs[i - texts.size()];
    const absl::Span<const uint8_t> in(reinterpret_cast<const uint8_t*>(b.data()), b.size());
    T                              t;
    const bool                     ok = fast_ber::decode(in, t).success;
    p.step();
    std::string r = ok ? "+" : "-";
    if (ok)
        r += all_of(t, p);
    else
        dump(t);
    const fast_ber::BerView v(in);
    r += print(v);
    p.step();
    size_t sum = 0;
    if (v.is_valid())
        for (const fast_ber::BerView& child : v)
            sum = sum * 31 + child.ber_length() + static_cast<size_t>(child.tag());
    return r + std::to_string(sum);
}

template <typename T>
std::string on_shared(const std::vector<T>& objects, size_t from, size_t i, Pace& p)
{
    i             = (i + from) % objects.size();
    const T& v    = objects[i];
    std::string r = all_of(v, p);
    const T     c = v;
    p.step();
    T a;
    a = v;
    r += std::to_string(eq(v, objects[(i + 1) % objects.size()])) + std::to_string(eq(c, v)) + std::to_string(eq(a, v));
    p.step();
    return r + "|" + dump(a);
}

inline std::string run_threads(size_t n, uint64_t seed, Out& o, const std::function<std::string(size_t, size_t, Pace&)>& work)
{
    std::vector<std::vector<std::string>> got(threads, std::vector<std::string>(n));
    Turn                                  turn;
    turn.order.resize(512);
    std::vector<std::thread> ts;
    for (int k = 0; k < threads; k++)
        ts.emplace_back([&, k] {
            Pace p{turn, k, seed * 7919 + static_cast<uint64_t>(k)};
            // from the same item or from different ones
            const size_t from = seed & 1 ? static_cast<size_t>(k) % n : 0;
            p.wait();
            for (size_t i = 0; i < n; i++)
                got[k][(i + from) % n] = work(from, i, p);
        });
    for (auto& t : ts)
        t.join();
    Turn none;
    Pace p{none, 0, 0};
    for (size_t i = 0; i < n; i++)
    {
        const std::string want = work(0, i, p);
        for (int k = 0; k < threads; k++)
            if (got[k][i] != want)
                return "item " + std::to_string(i) + ": one thread among " + std::to_string(threads) + " got " + hexof(got[k][i].substr(0, 4000)) + " alone: " + hexof(want.substr(0, 4000));
    }
    size_t steps = 0, changes = 0, h = 14695981039346656037u;
    for (size_t i = 0; i < turn.order.size() && turn.order[i]; i++)
    {
        steps++;
        changes += i && turn.order[i] != turn.order[i - 1];
        h = (h ^ turn.order[i]) * 1099511628211u;
    }
    o.str(std::to_string(steps) + "," + std::to_string(changes) + "," + std::to_string(h) + " ");
    return "";
}

template <typename T>
void op_threads(Reader& a, Out& o)
{
    const uint64_t           seed = static_cast<uint64_t>(a.num(' '));
    std::string              seg;
    std::vector<std::string> texts, inputs;
    std::stringstream        ss(std::string(a.p, a.e));
    while (ss >> seg)
    {
        if (seg[0] == 'd')
            inputs.push_back(unhex(seg.substr(1)));
        else
            texts.push_back(seg);
    }
    std::string e = run_threads(texts.size() + inputs.size(), seed, o, [&](size_t from, size_t i, Pace& p) { return on_own<T>(texts, inputs, from, i, p); });
    if (!e.empty())
        return o.str("!own " + e);
    std::vector<T> objects;
    objects.reserve(texts.size() + inputs.size());
    for (const auto& t : texts)
        objects.push_back(make<T>(t));
    for (const auto& b : inputs)
    {
        T t;
        if (fast_ber::decode(absl::Span<const uint8_t>(reinterpret_cast<const uint8_t*>(b.data()), b.size()), t).success)
            objects.push_back(std::move(t));
    }
    e = run_threads(objects.size(), seed / 2, o, [&](size_t from, size_t i, Pace& p) { return on_shared<T>(objects, from, i, p); });
    if (!e.empty())
        o.str("!shared " + e);
}

using Fn = void (*)(char, Reader&, Out&);
inline std::map<std::string, Fn>& registry()
{
    static std::map<std::string, Fn> m;
    return m;
}
struct Reg
{
    Reg(const std::string& n, Fn f) { registry()[n] = f; }
};

#ifndef VF_OPS
#define VF_OPS "EDHVPL"
#endif
constexpr bool has_op(char c)
{
    for (const char* p = VF_OPS; *p; ++p)
        if (*p == c)
            return true;
    return false;
}

template <bool B>
struct If
{
    template <typename F>
    static void run(F&&)
    {
        bad("operation not compiled in");
    }
};
template <>
struct If<true>
{
    template <typename F>
    static void run(F&& f)
    {
        f();
    }
};

template <typename T>
void run_type(char op, Reader& a, Out& o)
{
    switch (op)
    {
    case 'E':
        if constexpr (has_op('E'))
            return op_encode<T>(a, o);
        break;
    case 'D':
        if constexpr (has_op('D'))
            return op_decode<T>(a, o);
        break;
    case 'H':
        if constexpr (has_op('H'))
            return op_history<T>(a, o);
        break;
    case 'V':
        if constexpr (has_op('V'))
            return op_value<T>(a, o);
        break;
    case 'P':
        if constexpr (has_op('P'))
            return op_print<T>(a, o);
        break;
    case 'T':
        if constexpr (has_op('T'))
            return op_threads<T>(a, o);
        break;
    case 'L':
        if constexpr (has_op('L'))
            return op_leak<T>(a, o);
        break;
    }
    bad("operation not compiled in");
}

struct NullBuf : std::streambuf
{
    int             overflow(int c) override { return c; }
    std::streamsize xsputn(const char*, std::streamsize n) override { return n; }
};

int main_loop(int argc, char** argv); // vf_main.cpp
} // namespace vf
