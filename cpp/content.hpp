// Operations on the contents of OBJECT IDENTIFIER, REAL and time values, observed through every public accessor.
#pragma once
#include "vf.hpp"

namespace vf
{
template <typename T>
struct Content;

inline std::vector<int64_t> arcs(const std::string& s)
{
    std::vector<int64_t> r;
    std::stringstream    ss(s);
    std::string          x;
    while (std::getline(ss, x, '.'))
        r.push_back(std::strtoll(x.c_str(), nullptr, 10));
    return r;
}

template <typename T>
void oid_observe(const T& v, Out& o)
{
    const auto   c = v.value();
    const size_t n = v.number_of_components();
    o.str("v=");
    for (size_t i = 0; i < c.size(); i++)
        o.str((i ? "." : "") + std::to_string(c[i]));
    o.str(" n=" + std::to_string(n) + " c=");
    for (size_t i = 0; i < c.size(); i++)
        o.str((i ? "." : "") + std::to_string(v.component_number(i)));
    o.str(" beyond=");
    for (size_t i : {c.size(), c.size() + 1, c.size() + 100, size_t(-1)})
        o.str(std::to_string(v.component_number(i)) + ",");
    o.str(" eq=" + std::to_string(v == c) + std::to_string(v != c));
}

// the functions ObjectIdentifier is made of, which are as public: any buffer size, results which held something else
inline std::string oid_free(const fast_ber::ObjectIdentifierComponents& c, bool legal, const std::string& content)
{
    using namespace fast_ber;
    const size_t n = encoded_object_id_length(c);
    if (n != (legal ? content.size() : 0))
        return "encoded_object_id_length-" + std::to_string(n);
    for (size_t size = 0; size <= content.size() + 2; size++)
    {
        if (size > 3 && size + 3 < content.size())
            continue;
        for (size_t given : {size_t(0), n})
        {
            Heap       h(size, 0x5c);
            const auto r = encode_object_id(h.span(), c, given);
            if (r.success != (legal && size >= n) || (r.success && (r.length != n || std::memcmp(h.p, content.data(), n) != 0)))
                return "encode_object_id-in-" + std::to_string(size);
            for (size_t i = r.success ? n : size; i < size; i++)
                if (h.p[i] != 0x5c)
                    return "encode_object_id-wrote-past-the-end";
        }
    }
    if (legal)
    {
        Heap                       h(content);
        ObjectIdentifierComponents used = {1, 2, 3};
        if (!decode_object_id(h.cspan(), used).success || used != c)
            return "decode_object_id";
        if (!decode_object_id(h.cspan(), used).success || used != c)
            return "decode_object_id-again";
        if (get_number_of_components(h.cspan()) != c.size())
            return "get_number_of_components";
        for (size_t i = 0; i < c.size() + 2; i++)
            if (get_component_number(h.cspan(), i) != (i < c.size() ? c[i] : -1))
                return "get_component_number";
    }
    return "ok";
}

// A <arcs>: assignment, by every route; C <hex contents>: decoding
template <typename T>
void run_oid(char op, Reader& a, Out& o)
{
    if (op == 'A')
    {
        const auto                           l = arcs(a.until(' '));
        const auto                           before = arcs(std::string(a.p, a.e));
        fast_ber::ObjectIdentifierComponents c(l.begin(), l.end());
        T                                    v;
        if (!before.empty())
            v.assign(fast_ber::ObjectIdentifierComponents(before.begin(), before.end()));
        const bool ok = v.assign(c);
        T          u(c), w;
        w = c;
        o.str("ok=" + std::to_string(ok) + " ");
        oid_observe(v, o);
        o.str(" same=" + std::to_string(u == v) + std::to_string(w == v) + " e=" + enc_hex(v));
        T    d;
        bool eok;
        {
            const std::string          e = enc(v, eok);
            const fast_ber::BerView outer(absl::Span<const uint8_t>(reinterpret_cast<const uint8_t*>(e.data()), e.size()));
            fast_ber::BerView       inner = outer;
            if (outer.is_valid() && outer.construction() == fast_ber::Construction::constructed)
                inner = *outer.begin();
            o.str(" free=" + oid_free(c, ok, std::string(reinterpret_cast<const char*>(inner.content_data()), inner.content_length())));
        }
        bool dok = decode_into(d, enc(v, eok));
        o.str(" dok=" + std::to_string(dok) + " ");
        oid_observe(d, o);
    }
    else if (op == 'C')
    {
        const std::string bytes = unhex(std::string(a.p, a.e));
        T                 v;
        o.str("ok=" + std::to_string(decode_into(v, bytes)) + " ");
        oid_observe(v, o);
        o.str(" e=" + enc_hex(v));
    }
    else
        bad("oid op");
}

template <typename T>
void time_observe(const T& v, Out& o)
{
    const std::string s = v.string();
    o.str("s=" + hexof(s));
    o.str(" f=" + std::to_string(static_cast<int>(v.format())));
    try
    {
        const absl::Time t  = v.time();
        const absl::Time fl = absl::FromUnixSeconds(absl::ToUnixSeconds(t));
        o.str(" t=" + std::to_string(absl::ToUnixSeconds(t)) + (t == fl ? "" : "+fraction"));
    }
    catch (const std::exception&)
    {
        o.str(" t=throws");
    }
}

// Z <secs>, O <secs> <offset>, L <y> <mo> <d> <h> <mi> <s>: setters; C <hex>: decoding
template <typename T>
void run_time(char op, Reader& a, Out& o)
{
    std::stringstream ss(std::string(a.p, a.e));
    if (op == 'C')
    {
        T v;
        o.str("ok=" + std::to_string(decode_into(v, unhex(std::string(a.p, a.e)))) + " ");
        time_observe(v, o);
        o.str(" e=" + enc_hex(v));
        return;
    }
    T       v;
    int64_t s = 0;
    if (op == 'Z')
    {
        ss >> s;
        v.set_time(absl::FromUnixSeconds(s));
    }
    else if (op == 'O')
    {
        int off;
        ss >> s >> off;
        v.set_time(absl::FromUnixSeconds(s), off);
    }
    else if (op == 'L')
    {
        int64_t y;
        int     mo, d, h, mi, sec;
        ss >> y >> mo >> d >> h >> mi >> sec;
        v.set_time(absl::CivilSecond(y, mo, d, h, mi, sec));
    }
    else
        bad("time op");
    time_observe(v, o);
    o.str(" e=" + enc_hex(v) + " | ");
    T    d;
    bool eok;
    o.str("ok=" + std::to_string(decode_into(d, enc(v, eok))) + " ");
    time_observe(d, o);
    if (op == 'Z')
    {
        T c(absl::FromUnixSeconds(s));
        o.str(" c=" + std::to_string(c == v && c.string() == v.string()));
    }
}
} // namespace vf
