// C16: scripts of operations on BER containers; after each operation the state of both containers is printed.
#pragma once
#include "vf.hpp"

namespace vf
{
template <typename C>
struct Kind;
using ByteSpan = absl::Span<const uint8_t>;

inline std::string item(Reader& r) { return r.hex(static_cast<size_t>(r.num(':'))); }

template <typename C>
void fields(const C& c, Out& o)
{
    const fast_ber::BerView v = c.view();
    o.num(v.is_valid(), ',');
    o.num(static_cast<int>(c.class_()), ',');
    o.num(c.tag(), ',');
    o.hex(c.content().data(), c.content().size());
    o.put(',');
    o.hex(c.ber().data(), c.ber().size());
    o.put(',');
    if (c.content_length() != c.content().size() || c.content_data() != c.content().data() || c.ber_data() != c.ber().data() || c.ber_length() != c.ber().size())
        o.str("accessors-differ");
    C& m = const_cast<C&>(c);
    if (m.content().data() != c.content().data() || m.content().size() != c.content().size() || m.content_data() != c.content_data())
        o.str("mutable-accessors-differ");
    if (v.is_valid() && (v.ber_length() != c.ber().size() || std::memcmp(v.ber_data(), c.ber().data(), v.ber_length()) != 0))
        o.str("view-differs");
    const size_t n = c.ber().size();
    for (size_t size : {n ? n - 1 : 0, n, n + 2})
    {
        Heap out(size, 0x5c);
        auto e = c.encode(absl::Span<uint8_t>(out.p, out.n));
        if (e.success != (size >= n) || (e.success && (e.length != n || std::memcmp(out.p, c.ber().data(), n) != 0)))
            o.str("encode-differs");
    }
}
template <typename C>
void state(const C& c, Out& o)
{
    fields(c, o);
}
inline void state(const fast_ber::BerContainer& c, Out& o)
{
    if (!c.is_valid())
    {
        o.str("invalid");
        return;
    }
    fields(c, o);
    if (c.construction() != c.view().construction() || c.identifier_length() != c.view().identifier_length() || c.header_length() != c.view().header_length())
        o.str("header-accessors-differ");
    o.num(c.construction() == fast_ber::Construction::constructed, '.');
    o.num(static_cast<int64_t>(c.identifier_length()), '.');
    o.num(static_cast<int64_t>(c.header_length()), '.');
}

struct Generic // BerContainer
{
    template <typename C>
    static bool special(char op, C& a, C&, Reader& r, Out& o, fast_ber::BerContainer*)
    {
        if (op != 'H' && op != 'h')
            return false;
        auto        con = r.num(':') ? fast_ber::Construction::constructed : fast_ber::Construction::primitive;
        auto        cls = static_cast<fast_ber::Class>(r.num(':'));
        int64_t     tag = r.num(':');
        std::string d   = item(r);
        Heap        h(d);
        if (op == 'H')
            a.assign_content(con, cls, tag, ByteSpan(h.p, h.n));
        else
            a = C(con, cls, tag, ByteSpan(h.p, h.n));
        (void)o;
        return true;
    }
    template <typename C, typename D>
    static bool special(char, C&, C&, Reader&, Out&, D*)
    {
        return false;
    }
};

// containers of the same template with another identifier
template <typename C>
struct Other
{
    using type = C;
};
template <typename I>
struct Other<fast_ber::FixedIdBerContainer<I>>
{
    using type = fast_ber::FixedIdBerContainer<fast_ber::DoubleId<fast_ber::Id<fast_ber::Class::private_, 70>, fast_ber::Id<fast_ber::Class::application, 9>>>;
};
template <typename I, size_t n>
struct Other<fast_ber::SmallFixedIdBerContainer<I, n>>
{
    using type = fast_ber::SmallFixedIdBerContainer<fast_ber::Id<fast_ber::Class::private_, 300>, (n < 7 ? n : 7)>;
};

template <typename C>
void equality(const C&, const C&, Out&, fast_ber::BerContainer*)
{
}
template <typename C, typename D>
void equality(const C& a, const C& b, Out& o, D*)
{
    o.num(a == b, '.');
    o.num(a != b, '.');
}

template <typename C>
void run_container(char, Reader& r, Out& o)
{
    using fast_ber::BerView;
    using fast_ber::ConstructionMethod;
    auto a = absl::make_unique<C>();
    auto b = absl::make_unique<C>();
    C*   none = nullptr;
    state(*a, o);
    while (!r.done())
    {
        r.accept(' ');
        char op = r.get();
        o.put('|');
        if (Generic::special(op, *a, *b, r, o, none))
        {
        }
        else
            switch (op)
            {
            case 'a': { std::string d = item(r); Heap h(d); a->assign_content(ByteSpan(h.p, h.n)); break; }
            case 'n': { std::string d = item(r); Heap h(d); a = absl::make_unique<C>(ByteSpan(h.p, h.n), ConstructionMethod::construct_with_provided_content); break; }
            case 'p': { std::string d = item(r); Heap h(d); a = absl::make_unique<C>(ByteSpan(h.p, h.n), ConstructionMethod::construct_from_ber_packet); break; }
            case 'v': { std::string d = item(r); Heap h(d); a = absl::make_unique<C>(BerView(ByteSpan(h.p, h.n))); break; }
            case 'd': { std::string d = item(r); Heap h(d); o.num(a->decode(BerView(ByteSpan(h.p, h.n))).success, '.'); break; }
            case '=': { std::string d = item(r); Heap h(d); *a = BerView(ByteSpan(h.p, h.n)); break; }
            case 'r': a->resize_content(static_cast<size_t>(r.num(':'))); break;
            case 'w':
            {
                size_t  pos = static_cast<size_t>(r.num(':'));
                uint8_t x   = static_cast<uint8_t>(r.num(':'));
                auto    c   = a->content();
                if (pos < c.size())
                {
                    if (pos % 2) c[pos] = x; else a->content_data()[pos] = x;
                    o.str("w.");
                }
                break;
            }
            case 'f': { uint8_t x = static_cast<uint8_t>(r.num(':')); for (auto& y : a->content()) y = x; break; }
            case 'c': a = absl::make_unique<C>(static_cast<const C&>(*b)); break;
            case 'm': a = absl::make_unique<C>(std::move(*b)); break;
            case 'C': *a = static_cast<const C&>(*b); break;
            case 'M': *a = std::move(*b); break;
            case 's': { C& self = *a; *a = static_cast<const C&>(self); break; }
            case 'S': { C& self = *a; *a = std::move(self); break; }
            case 'x': std::swap(a, b); break;
            case 'X': std::swap(*a, *b); break;
            case 'o': { std::string d = item(r); Heap h(d); typename Other<C>::type other(ByteSpan(h.p, h.n), ConstructionMethod::construct_with_provided_content); a = absl::make_unique<C>(other); break; }
            case 'O': { std::string d = item(r); Heap h(d); typename Other<C>::type other(ByteSpan(h.p, h.n), ConstructionMethod::construct_with_provided_content); *a = other; break; }
            case '?': equality(*a, *b, o, none); break;
            default: bad("operation");
            }
        o.put('/');
        state(*a, o);
        o.put('/');
        state(*b, o);
    }
}

template <typename S>
void string_state(const S& s, Out& o)
{
    o.hex(s.data(), s.size());
    o.put(',');
    Heap out(s.encoded_length());
    auto e = s.encode(absl::Span<uint8_t>(out.p, out.n));
    if (!e.success || e.length != out.n)
        o.str("encode-fails");
    o.hex(out.p, out.n);
    o.put(',');
    S& m = const_cast<S&>(s);
    if (s.length() != s.size() || s.empty() != (s.size() == 0) || s.span().data() != s.data() || s.span().size() != s.size() || s.begin() != s.data() || s.end() != s.data() + s.size() ||
        s.c_str() != reinterpret_cast<const char*>(s.data()) || m.data() != s.data() || m.begin() != s.begin() || m.end() != s.end() || m.span().data() != s.data() || m.span().size() != s.size() ||
        m.c_str() != s.c_str() || absl::string_view(s).data() != s.c_str() || absl::string_view(s).size() != s.size())
        o.str("accessors-differ");
    if (s.value() != std::string(s.c_str(), s.size()))
        o.str("value-differs");
    for (size_t i = 0; i < s.size(); i += 1 + s.size() / 5)
        if (&s[i] != s.data() + i || &m[i] != s.data() + i)
            o.str("index-differs");
}

template <typename S>
void run_string(char, Reader& r, Out& o)
{
    using Q = fast_ber::IA5String<fast_ber::Id<fast_ber::Class::private_, 300>>;
    auto a  = absl::make_unique<S>();
    auto b  = absl::make_unique<S>();
    string_state(*a, o);
    while (!r.done())
    {
        r.accept(' ');
        char op = r.get();
        o.put('|');
        switch (op)
        {
        case 'a': { std::string d = item(r); Heap h(d); a->assign(absl::string_view(reinterpret_cast<char*>(h.p), h.n)); break; }
        case 'b': { std::string d = item(r); Heap h(d); a->assign(ByteSpan(h.p, h.n)); break; }
        case '1': { std::string d = item(r); *a = d.c_str(); break; }
        case '2': { std::string d = item(r); *a = d; break; }
        case '3': { std::string d = item(r); *a = absl::string_view(d); break; }
        case '4': { std::string d = item(r); Heap h(d); *a = ByteSpan(h.p, h.n); break; }
        case '5': { std::string d = item(r); a = absl::make_unique<S>(d.c_str()); break; }
        case '6': { std::string d = item(r); a = absl::make_unique<S>(d); break; }
        case '7': { std::string d = item(r); a = absl::make_unique<S>(absl::string_view(d)); break; }
        case '8': { std::string d = item(r); Heap h(d); a = absl::make_unique<S>(ByteSpan(h.p, h.n)); break; }
        case 'q': { std::string d = item(r); Q q(d); a = absl::make_unique<S>(q); break; }
        case 'Q': { std::string d = item(r); Q q(d); *a = q; if (q.value() != d) o.str("source-changed"); break; }
        case 'u': { std::string d = item(r); Q q(d); a->assign(q); break; }
        case 'y': { std::string d = item(r); Q q(d); a = absl::make_unique<S>(std::move(q)); break; }
        case 'd': { std::string d = item(r); Heap h(d); o.num(a->decode(fast_ber::BerView(ByteSpan(h.p, h.n))).success, '.'); break; }
        case 'v': { std::string d = item(r); Heap h(d); a = absl::make_unique<S>(fast_ber::BerView(ByteSpan(h.p, h.n))); break; }
        case 'r': a->resize(static_cast<size_t>(r.num(':'))); break;
        case 'w':
        {
            size_t  pos = static_cast<size_t>(r.num(':'));
            uint8_t x   = static_cast<uint8_t>(r.num(':'));
            if (pos < a->size())
            {
                (*a)[pos] = x;
                o.str("w.");
            }
            break;
        }
        case 'f': { uint8_t x = static_cast<uint8_t>(r.num(':')); for (auto& y : *a) y = x; break; }
        case 'c': a = absl::make_unique<S>(static_cast<const S&>(*b)); break;
        case 'm': a = absl::make_unique<S>(std::move(*b)); break;
        case 'C': *a = static_cast<const S&>(*b); break;
        case 'M': *a = std::move(*b); break;
        case 's': { S& self = *a; *a = static_cast<const S&>(self); break; }
        case 'S': { S& self = *a; *a = std::move(self); break; }
        case 'x': std::swap(a, b); break;
        case 'X': std::swap(*a, *b); break;
        case '?':
        {
            std::string x = b->value();
            o.num(*a == *b, '.');
            o.num(*a != *b, '.');
            o.num(*a == x, '.');
            o.num(*a != x, '.');
            o.num(*a == absl::string_view(x), '.');
            o.num(*a != absl::string_view(x), '.');
            if (x.find('\0') == std::string::npos)
            {
                o.num(*a == x.c_str(), '.');
                o.num(*a != x.c_str(), '.');
            }
            break;
        }
        default: bad("operation");
        }
        o.put('/');
        string_state(*a, o);
        o.put('/');
        string_state(*b, o);
    }
}
} // namespace vf
