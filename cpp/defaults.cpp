// C21: histories of operations on DEFAULT and OPTIONAL components, compared step by step with a model.
// A case is "D <kind> <op>.<a>.<b>.<x> ..." (a, b: slots; x: a value; value 0 is the default).
#include <fast_ber/ber_types/All.hpp>

#include <cstdio>
#include <fstream>
#include <map>
#include <sstream>
#include <string>
#include <vector>

#include <signal.h>
#include <sys/time.h>
#include <unistd.h>

using namespace fast_ber;

struct Viol
{
    std::string what;
};
[[noreturn]] static void viol(const std::string& what) { throw Viol{what}; }

template <typename T>
static std::string bytes(const T& v)
{
    std::vector<uint8_t> b(v.encoded_length() + 8, 0xAB);
    EncodeResult         r = v.encode(absl::MakeSpan(b));
    if (!r.success)
        viol("could not be encoded");
    if (r.length != v.encoded_length())
        viol("length of the encoding");
    for (size_t i = r.length; i < b.size(); i++)
        if (b[i] != 0xAB)
            viol("wrote beyond its encoding");
    return std::string(b.begin(), b.begin() + r.length);
}

enum class Color
{
    red    = 3,
    green  = 0,
    blue   = -7,
    yellow = 70000
};

// the values of each kind: the default, and others
template <typename Component, typename Native, typename Get>
struct Kind
{
    using T = Component;
    using D = Default<T, Get>;
    std::vector<Native>      native;
    std::vector<std::string> tlv; // of each value
};

struct Get5
{
    constexpr static int64_t get_value() noexcept { return 5; }
};
struct GetAbc
{
    constexpr static absl::string_view get_value() noexcept { return absl::string_view("abc", 3); }
};
struct GetEmpty
{
    constexpr static absl::string_view get_value() noexcept { return absl::string_view("", 0); }
};
struct GetBits
{
    constexpr static absl::string_view get_value() noexcept { return absl::string_view("\005\240", 2); }
};
struct GetTrue
{
    constexpr static bool get_value() noexcept { return true; }
};
struct GetReal
{
    constexpr static double get_value() noexcept { return 1.5; }
};
struct GetOid
{
    static ObjectIdentifier<> get_value() noexcept { return ObjectIdentifier<>{1, 2, 3}; }
};
struct GetGreen
{
    constexpr static Color get_value() noexcept { return Color::green; }
};

struct Op
{
    char op;
    int  a, b, x;
};

static std::map<std::string, long> seen;
static const int                   GONE = -1, ABSENT = -2; // value not known; an absent optional

// ---- DEFAULT
template <typename K, typename N>
struct DefaultRunner
{
    using D = typename K::D;
    using T = typename K::T;
    K                k;
    std::vector<D>   slot;
    std::vector<int> model{0, 0, 0};
    std::vector<bool> explicitly{false, false, false}; // decoded: whether the default is then encoded is left open

    explicit DefaultRunner(K kk) : k(kk), slot(3) {}

    BerView view(const std::string& s) { return BerView(absl::MakeSpan(reinterpret_cast<const uint8_t*>(s.data()), s.size())); }

    void check(int a, const char* which)
    {
        int m = model[a];
        if (m == GONE)
            return;
        const D& d = slot[a];
        if (bytes(d.get()) != k.tlv[m])
            viol(std::string(which) + " has another value than the one it was given");
        for (size_t i = 0; i < k.native.size(); i++)
            if ((d == k.native[i]) != (int(i) == m) || (d == T(k.native[i])) != (int(i) == m))
                viol(std::string(which) + " does not compare like its value");
        if (!explicitly[a] && d.is_default() != (m == 0))
            viol(std::string(which) + (m ? " claims to be the default" : " was given the default but does not say so"));
        if (d.is_default() && m != 0)
            viol(std::string(which) + " claims to be the default");
        std::string out = bytes(d);
        if (out != (d.is_default() ? std::string() : k.tlv[m]))
            viol(std::string(which) + (d.is_default() ? " is encoded though it is the default" : " is encoded wrongly"));
        seen[m == 0 ? "defaults compared" : "other values compared"]++;
    }

    void step(const Op& o)
    {
        int a = o.a % 3, b = o.b % 3, x = o.x % int(k.native.size());
        bool ok;
        switch (o.op)
        {
        case 'a':
            slot[a]       = k.native[x];
            model[a]      = x;
            explicitly[a] = false;
            break;
        case 'c': {
            D d(k.native[x]);
            slot[a]       = d;
            model[a]      = x;
            explicitly[a] = false;
            break;
        }
        case 't':
            slot[a]       = T(k.native[x]);
            model[a]      = x;
            explicitly[a] = false;
            break;
        case 'T': {
            D d{T(k.native[x])};
            slot[a]       = std::move(d);
            model[a]      = x;
            explicitly[a] = false;
            break;
        }
        case 'd':
            slot[a].set_to_default();
            model[a]      = 0;
            explicitly[a] = false;
            break;
        case 'e':
            ok = slot[a].decode(view(k.tlv[x])).success;
            if (!ok)
                viol("could not be decoded");
            model[a]      = x;
            explicitly[a] = x == 0;
            break;
        case 'E':
            ok = slot[a].decode(BerView()).success;
            if (!ok)
                viol("an absent component could not be decoded");
            model[a]      = 0;
            explicitly[a] = false;
            break;
        case 'w':
            ok = slot[a].decode(view(std::string("\x9f\x7f\x01\x05", 4))).success;
            if (ok)
                viol("decoded an element with another tag");
            model[a] = GONE;
            break;
        case 'C':
            slot[a]       = static_cast<const D&>(slot[b]);
            model[a]      = model[b];
            explicitly[a] = explicitly[b];
            break;
        case 'M':
            if (a == b)
                return;
            slot[a]       = std::move(slot[b]);
            model[a]      = model[b];
            explicitly[a] = explicitly[b];
            model[b]      = GONE;
            break;
        case 'X': {
            D d(static_cast<const D&>(slot[b]));
            D e(std::move(d));
            slot[a]       = e;
            model[a]      = model[b];
            explicitly[a] = explicitly[b];
            break;
        }
        default: viol("bad operation");
        }
    }
};

// ---- OPTIONAL
template <typename K, typename N, StorageMode S>
struct OptionalRunner
{
    using T = typename K::T;
    using D = Optional<T, S>;
    K                k;
    std::vector<D>   slot;
    std::vector<int> model{ABSENT, ABSENT, ABSENT};

    explicit OptionalRunner(K kk) : k(kk), slot(3) {}

    BerView view(const std::string& s) { return BerView(absl::MakeSpan(reinterpret_cast<const uint8_t*>(s.data()), s.size())); }

    void check(int a, const char* which)
    {
        int m = model[a];
        if (m == GONE)
            return;
        const D& d = slot[a];
        if (d.has_value() != (m != ABSENT))
            viol(std::string(which) + (m == ABSENT ? " is present though absent" : " is absent though given a value"));
        if (m != ABSENT && bytes(*d) != k.tlv[m])
            viol(std::string(which) + " has another value than the one it was given");
        if (bytes(d) != (m == ABSENT ? std::string() : k.tlv[m]))
            viol(std::string(which) + " is encoded wrongly");
        seen[m == ABSENT ? "absent components compared" : "present components compared"]++;
    }

    void step(const Op& o)
    {
        int a = o.a % 3, b = o.b % 3, x = o.x % int(k.native.size());
        switch (o.op)
        {
        case 'a':
        case 't':
            slot[a]  = T(k.native[x]);
            model[a] = x;
            break;
        case 'c':
        case 'T': {
            D d{T(k.native[x])};
            slot[a]  = std::move(d);
            model[a] = x;
            break;
        }
        case 'd':
            slot[a]  = absl::nullopt;
            model[a] = ABSENT;
            break;
        case 'e':
            if (!slot[a].decode(view(k.tlv[x])).success)
                viol("could not be decoded");
            model[a] = x;
            break;
        case 'E':
            if (!slot[a].decode(BerView()).success)
                viol("an absent component could not be decoded");
            model[a] = ABSENT;
            break;
        case 'w':
            (void)slot[a].decode(view(std::string("\x9f\x7f\x01\x05", 4)));
            model[a] = GONE;
            break;
        case 'C':
            slot[a]  = static_cast<const D&>(slot[b]);
            model[a] = model[b];
            break;
        case 'M':
            if (a == b)
                return;
            slot[a]  = std::move(slot[b]);
            model[a] = model[b];
            model[b] = GONE;
            break;
        case 'X': {
            D d(static_cast<const D&>(slot[b]));
            D e(std::move(d));
            slot[a]  = e;
            model[a] = model[b];
            break;
        }
        default: viol("bad operation");
        }
    }
};

template <typename R, typename K>
static std::string history(K k, const std::vector<Op>& ops)
{
    size_t n = 0;
    char   op = '?';
    try
    {
        R r(k);
        for (int i = 0; i < 3; i++)
            r.check(i, "a new object");
        for (const Op& o : ops)
        {
            n++;
            op = o.op;
            r.step(o);
            for (int i = 0; i < 3; i++)
                r.check(i, i == o.a % 3 ? "the object" : "another object");
        }
    }
    catch (const Viol& v)
    {
        return "VIOL operation " + std::to_string(n) + " (" + op + "): " + v.what;
    }
    return "";
}

template <typename T, typename Native, typename Get>
static std::string run(const std::string& mode, std::vector<Native> native, std::vector<std::string> tlv, const std::vector<Op>& ops)
{
    using K = Kind<T, Native, Get>;
    K k{native, tlv};
    if (mode == "default")
        return history<DefaultRunner<K, Native>>(k, ops);
    if (mode == "optional")
        return history<OptionalRunner<K, Native, StorageMode::static_>>(k, ops);
    return history<OptionalRunner<K, Native, StorageMode::dynamic>>(k, ops);
}

template <typename I>
using Ints = Integer<I>;

static std::string dispatch(const std::string& kind, const std::string& mode, const std::vector<Op>& ops)
{
    using sv = absl::string_view;
    using S  = std::string;
    const std::vector<int64_t> ints{5, 0, -5, 261, 1311768467294899695};
    if (kind == "int")
        return run<Integer<>, int64_t, Get5>(mode, ints, {S("\x02\x01\x05", 3), S("\x02\x01\x00", 3), S("\x02\x01\xfb", 3), S("\x02\x02\x01\x05", 4), S("\x02\x08\x12\x34\x56\x78\x90\xab\xcd\xef", 10)}, ops);
    if (kind == "int-implicit")
        return run<Integer<Id<Class::context_specific, 3>>, int64_t, Get5>(mode, {5, 0, 6}, {S("\x83\x01\x05", 3), S("\x83\x01\x00", 3), S("\x83\x01\x06", 3)}, ops);
    if (kind == "int-explicit")
        return run<Integer<DoubleId<Id<Class::context_specific, 3>, Id<Class::universal, 2>>>, int64_t, Get5>(mode, {5, 0, 6}, {S("\xa3\x03\x02\x01\x05", 5), S("\xa3\x03\x02\x01\x00", 5), S("\xa3\x03\x02\x01\x06", 5)}, ops);
    if (kind == "bool")
        return run<Boolean<>, bool, GetTrue>(mode, {true, false}, {S("\x01\x01\xff", 3), S("\x01\x01\x00", 3)}, ops);
    if (kind == "enum")
        return run<Enumerated<Color>, Color, GetGreen>(mode, {Color::green, Color::red, Color::blue, Color::yellow}, {S("\x0a\x01\x00", 3), S("\x0a\x01\x03", 3), S("\x0a\x01\xf9", 3), S("\x0a\x03\x01\x11\x70", 5)}, ops);
    if (kind == "octets")
        return run<OctetString<>, sv, GetAbc>(mode, {"abc", "", sv("ab\0c", 4), "abd", "abcabcabcabcabcabcabcabcabcabcabcabc"}, {S("\x04\x03" "abc"), S("\x04\x00", 2), S("\x04\x04" "ab\0c", 6), S("\x04\x03" "abd"), S("\x04\x24" "abcabcabcabcabcabcabcabcabcabcabcabc")}, ops);
    if (kind == "text")
        return run<UTF8String<>, sv, GetEmpty>(mode, {"", "x", sv("\0", 1)}, {S("\x0c\x00", 2), S("\x0c\x01x"), S("\x0c\x01\x00", 3)}, ops);
    if (kind == "bits")
        return run<BitString<>, sv, GetBits>(mode, {sv("\005\240", 2), sv("\004\240", 2), sv("\0", 1), sv("\0\240", 2)}, {S("\x03\x02\x05\xa0", 4), S("\x03\x02\x04\xa0", 4), S("\x03\x01\x00", 3), S("\x03\x02\x00\xa0", 4)}, ops);
    if (kind == "real")
        return run<Real<>, double, GetReal>(mode, {1.5, 0.0, 3.0}, {bytes(Real<>(1.5)), S("\x09\x00", 2), bytes(Real<>(3.0))}, ops);
    if (kind == "oid")
        return run<ObjectIdentifier<>, ObjectIdentifier<>, GetOid>(mode, {ObjectIdentifier<>{1, 2, 3}, ObjectIdentifier<>{1, 2}, ObjectIdentifier<>{2, 999, 3}}, {S("\x06\x02\x2a\x03", 4), S("\x06\x01\x2a", 3), S("\x06\x03\x88\x37\x03", 5)}, ops);
    return "!BAD kind " + kind;
}

static void on_cpu_limit(int)
{
    const char m[] = "!HANG\n";
    if (::write(1, m, sizeof m - 1) < 0)
        _exit(97);
    _exit(77);
}

int main(int argc, char** argv)
{
    if (argc < 3)
        return 2;
    std::ifstream in(argv[1]);
    long          skip  = std::atol(argv[2]);
    int           limit = argc > 3 ? std::atoi(argv[3]) : 10;
    signal(SIGVTALRM, on_cpu_limit);
    std::string line;
    while (std::getline(in, line))
    {
        if (skip-- > 0)
            continue;
        itimerval tv{{0, 0}, {limit, 0}};
        setitimer(ITIMER_VIRTUAL, &tv, nullptr);
        std::istringstream ss(line);
        std::string        h, kind, mode, item, out;
        ss >> h >> kind >> mode;
        std::vector<Op> ops;
        while (ss >> item)
        {
            Op o{};
            if (std::sscanf(item.c_str(), "%c.%d.%d.%d", &o.op, &o.a, &o.b, &o.x) != 4)
                out = "!BAD operation " + item;
            ops.push_back(o);
        }
        seen.clear();
        if (out.empty())
            out = dispatch(kind, mode, ops);
        if (out.empty())
        {
            out = "ok ";
            for (auto& p : seen)
                out += p.first + ":" + std::to_string(p.second) + ";";
        }
        out += "\n";
        if (::write(1, out.data(), out.size()) != ssize_t(out.size()))
            return 97;
    }
    return 0;
}
