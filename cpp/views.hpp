// C15: BER views over exactly sized memory, observed through every accessor and iterator.
#pragma once
#include "vf.hpp"

namespace vf
{
inline std::string rest(Reader& r) { return r.hex(static_cast<size_t>(r.e - r.p) / 2); }

template <typename View>
void view_fields(const View& v, const uint8_t* base, Out& o)
{
    if (!v.is_valid())
    {
        o.str("-");
        return;
    }
    o.num(static_cast<int>(v.class_()), ',');
    o.num(v.construction() == fast_ber::Construction::constructed, ',');
    o.num(v.tag(), ',');
    o.num(static_cast<int64_t>(v.identifier_length()), ',');
    o.num(static_cast<int64_t>(v.header_length()), ',');
    o.num(static_cast<int64_t>(v.content_length()), ',');
    o.num(v.content_data() - base, ',');
    o.num(static_cast<int64_t>(v.content().size()), ',');
    o.num(v.content().data() - base, ',');
    o.num(v.ber_data() - base, ',');
    o.num(static_cast<int64_t>(v.ber_length()), ',');
    o.num(static_cast<int64_t>(v.ber().size()), ',');
    o.num(v.ber().data() - base, ',');
    const auto id = v.identifier();
    o.num(static_cast<int>(id.class_()), ',');
    o.num(id.tag(), ';');
}

template <typename It>
void view_children(It it, It end, const uint8_t* base, Out& o)
{
    o.str("[");
    size_t n = 0;
    for (; it != end; ++it)
    {
        if (!it->is_valid() || (*it).ber_data() != it->ber_data())
            o.str("invalid-element");
        o.num((*it).ber_data() - base, '+');
        o.num(static_cast<int64_t>(it->ber_length()), '/');
        o.num(it->tag(), ' ');
        if (++n > 100000)
        {
            o.str("endless");
            break;
        }
        It copy = it;
        if (!(copy == it) || copy != it)
            o.str("copy-differs");
    }
    if (!(it == end))
        o.str("not-at-end");
    o.str("]");
}

// element by element, to any depth
inline void view_tree(const fast_ber::BerView& v, const uint8_t* base, Out& o, int depth)
{
    o.num(v.ber_data() - base, '+');
    o.num(static_cast<int64_t>(v.ber_length()), 0 ? ' ' : ':');
    if (v.construction() == fast_ber::Construction::constructed && depth < 60)
    {
        o.str("(");
        for (const auto& c : v)
            view_tree(c, base, o, depth + 1);
        o.str(")");
    }
}

inline void run_view(char, Reader& r, Out& o)
{
    using namespace fast_ber;
    const std::string               data = rest(r);
    Heap                            h(data);
    const absl::Span<const uint8_t> span(h.p, h.n);
    const BerView                   v(span);
    view_fields(v, h.p, o);
    // the same through a view which saw something else before, the mutable view and the iterator
    static BerView old;
    {
        BerView used = old;
        used.assign(span);
        Out a, b;
        view_fields(used, h.p, a);
        view_fields(v, h.p, b);
        if (a.s != b.s)
            o.str(" reassigned:" + a.s);
        static const uint8_t other[] = {0xBF, 0x81, 0x01, 0x81, 0x02, 0x05, 0x00};
        old.assign(absl::Span<const uint8_t>(other, sizeof other));
        const MutableBerView m(absl::Span<uint8_t>(h.p, h.n));
        Out                  c;
        view_fields(m, h.p, c);
        if (c.s != b.s)
            o.str(" mutable:" + c.s);
        BerViewIterator it(span);
        Out             d;
        view_fields(*it, h.p, d);
        if (d.s != b.s)
            o.str(" iterator:" + d.s);
        Construction con{};
        Class        cls{};
        fast_ber::Tag tag = -5;
        if (extract_construction(span, con) != !span.empty() || extract_class(span, cls) != !span.empty())
            o.str(" extract");
        size_t n = extract_tag(span, tag);
        if (v.is_valid() && (con != v.construction() || cls != v.class_() || tag != v.tag() || n != v.identifier_length() || extract_tag_length(span) != n))
            o.str(" extracted-identifier-differs");
        size_t l = 0;
        if (v.is_valid() && (n + extract_length(span, l, n) != v.header_length() || l != v.content_length()))
            o.str(" extracted-length-differs");
    }
    o.str(" top");
    view_children(BerViewIterator(span), BerViewIterator(End::end), h.p, o);
    {
        MutableBerView m(absl::Span<uint8_t>(h.p, h.n));
        Out            a, b, c;
        view_children(MutableBerViewIterator(absl::Span<uint8_t>(h.p, h.n)), MutableBerViewIterator(End::end), h.p, a);
        view_children(BerViewIterator(span), BerViewIterator(End::end), h.p, b);
        if (a.s != b.s)
            o.str(" mutable-top:" + a.s);
    }
    BerViewIterator all(span), end(End::end);
    while (all != end)
        ++all;
    o.str(all.is_complete() ? " complete" : " leftover");
    if (v.is_valid())
    {
        o.str(" inner");
        view_children(v.begin(), v.end(), h.p, o);
        MutableBerView m(absl::Span<uint8_t>(h.p, h.n));
        Out            a, b, c;
        view_children(v.begin(), v.end(), h.p, a);
        view_children(m.begin(), m.end(), h.p, b);
        view_children(m.cbegin(), m.cend(), h.p, c);
        if (a.s != b.s || a.s != c.s)
            o.str(" mutable-inner:" + b.s + c.s);
        o.str(" tree ");
        view_tree(v, h.p, o, 0);
        const size_t n = v.ber_length();
        for (size_t size : {size_t(0), n ? n - 1 : 0, n, n + 3})
        {
            Heap out(size, 0x5c);
            auto res = v.encode(absl::Span<uint8_t>(out.p, out.n));
            if (res.success != (size >= n) || (res.success && (res.length != n || std::memcmp(out.p, h.p, n) != 0)))
                o.str(" encode-" + std::to_string(size));
            for (size_t i = res.success ? n : 0; i < size; i++)
                if (out.p[i] != 0x5c)
                    o.str(" encode-touches");
        }
    }
    if (std::memcmp(h.p, data.data(), data.size()) != 0)
        o.str(" input-changed");
    // every prefix, alone in memory
    o.str(" prefixes ");
    for (size_t k = 0; k < data.size() && k < 24; k++)
    {
        Heap          part(data.substr(0, k));
        const BerView pv(absl::Span<const uint8_t>(part.p, part.n));
        o.str(pv.is_valid() ? std::to_string(pv.ber_length()) + "," : "-");
    }
}

// the header functions by themselves, for any class, form, tag number and length; what does not fit is to be refused without harm
template <typename Id>
void header_lengths(uint64_t length, Out& o)
{
    o.num(static_cast<int64_t>(fast_ber::encoded_header_length(static_cast<size_t>(length), Id{})), ',');
    o.num(static_cast<int64_t>(fast_ber::encoded_length(static_cast<size_t>(length), Id{}) - length), ',');
}

inline void run_header(char, Reader& r, Out& o)
{
    using namespace fast_ber;
    const std::string d = rest(r);
    const auto        number = [&](size_t at) {
        uint64_t x = 0;
        for (size_t i = 0; i < 8; i++)
            x = x << 8 | static_cast<uint8_t>(d[at + i]);
        return x;
    };
    const Class        cls = static_cast<Class>(d[0]);
    const Construction con = d[1] ? Construction::constructed : Construction::primitive;
    const fast_ber::Tag tag    = static_cast<fast_ber::Tag>(number(2));
    const uint64_t     length = number(10);
    o.num(static_cast<int64_t>(encoded_identifier_length(con, cls, tag)), ',');
    o.num(static_cast<int64_t>(encoded_length_length(static_cast<size_t>(length))), ',');
    const size_t all = encoded_header_length(con, cls, tag, static_cast<size_t>(length));
    o.num(static_cast<int64_t>(all), ':');
    for (size_t size = 0; size <= all + 2; size++)
    {
        Heap   h(size, 0x5c);
        size_t n = encode_header(h.span(), con, cls, tag, static_cast<size_t>(length));
        if (n != (size < all ? 0 : all))
            o.str(" header-in-" + std::to_string(size) + "-gives-" + std::to_string(n));
        if (size >= all && n == all)
        {
            if (size == all)
            {
                o.hex(h.p, n);
                Class         c{};
                Construction  k{};
                fast_ber::Tag t = -7;
                size_t        l = 77;
                const size_t  i = extract_tag(h.cspan(), t);
                if (!extract_class(h.cspan(), c) || !extract_construction(h.cspan(), k) || c != cls || k != con || t != tag || i != extract_tag_length(h.cspan()) || i + extract_length(h.cspan(), l, i) != n || l != length)
                    o.str(" extracted-differs");
            }
            for (size_t i = all; i < size; i++)
                if (h.p[i] != 0x5c)
                    o.str(" wrote-past-the-header");
        }
        Heap h2(size, 0x5c), h3(size, 0x5c);
        const size_t il = encoded_identifier_length(con, cls, tag), ll = encoded_length_length(static_cast<size_t>(length));
        if (encode_identifier(h2.span(), con, cls, tag) != (size < il ? 0 : il))
            o.str(" identifier-in-" + std::to_string(size));
        if (encode_length(h3.span(), length) != (size < ll ? 0 : ll))
            o.str(" length-in-" + std::to_string(size));
    }
    if (tag == 5)
    {
        header_lengths<Id<Class::universal, 16>>(length, o);
        header_lengths<Id<Class::private_, 127>>(length, o);
        header_lengths<Id<Class::private_, 128>>(length, o);
        header_lengths<DoubleId<Id<Class::context_specific, 30>, Id<Class::universal, 16>>>(length, o);
        header_lengths<DoubleId<Id<Class::application, 31>, Id<Class::context_specific, 16384>>>(length, o);
    }
}

// the functions INTEGER and REAL are made of: eight octets of value, then any contents
inline void run_numbers(char, Reader& r, Out& o)
{
    using namespace fast_ber;
    const std::string d = rest(r);
    uint64_t          bits = 0;
    for (size_t i = 0; i < 8; i++)
        bits = bits << 8 | static_cast<uint8_t>(d[i]);
    const int64_t value = static_cast<int64_t>(bits);
    for (size_t size = 0; size < 11; size++)
    {
        Heap         h(size, 0x5c);
        const size_t n = encode_integer(h.span(), value);
        o.num(static_cast<int64_t>(n), ',');
        if (n > size)
        {
            o.str("longer-than-the-buffer");
            return;
        }
        if (size == 10)
            o.hex(h.p, n);
        if (n != 0)
            for (size_t i = n; i < size; i++)
                if (h.p[i] != 0x5c)
                    o.str(" wrote-past-the-integer");
    }
    o.str(" ");
    const std::string content = d.substr(8);
    Heap              h(content);
    int64_t           x = 77;
    if (decode_integer(h.cspan(), x))
        o.num(x, ';');
    else
        o.str("refused;");
    double     f = 77;
    const bool ok = decode_real(h.cspan(), f);
    Real<>     real;
    // as the type does
    std::string packet = std::string("\x09", 1) + static_cast<char>(content.size()) + content;
    Heap        p(packet);
    const bool  as_type = real.decode(BerView(p.cspan())).success;
    const double g      = real.value();
    uint64_t     fb = 0, gb = 0;
    std::memcpy(&fb, &f, 8);
    std::memcpy(&gb, &g, 8);
    if (as_type && (!ok || fb != gb))
        o.str(" decode_real-differs");
    double of = -0.5;
    std::memcpy(&of, &bits, 8);
    Heap         b(fast_ber::detail::MaxEncodedLength, 0x5c);
    const size_t n = encode_real(b.span(), of);
    double       back = 77;
    if (n > b.n || !decode_real(absl::Span<const uint8_t>(b.p, n), back))
        o.str(" encode_real");
    else if (back != of && !(back != back && of != of))
        o.str(" real-changed");
}
} // namespace vf
