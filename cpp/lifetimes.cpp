// C14: histories of operations on variants, choices and optionals, watched by a registry of every object constructed
// and destroyed and compared, step by step, with a model of what each container should hold.
// A case is "H <kind> <op>.<a>.<b>.<x>.<arm>,..." (a, b: slots; x: a value; arm: the n-th throwing operation throws).
#include <fast_ber/ber_types/All.hpp>

#include <cstdint>
#include <cstdio>
#include <fstream>
#include <new>
#include <sstream>
#include <map>
#include <set>
#include <string>
#include <utility>
#include <vector>

#include <signal.h>
#include <sys/time.h>
#include <unistd.h>

struct Boom
{
};
struct Viol
{
    std::string what;
};
[[noreturn]] static void viol(const std::string& what) { throw Viol{what}; }

static std::map<const void*, int> live; // address -> kind
static std::string                pending; // a violation seen where throwing is impossible
static long                       arm, constructions, destructions;
static bool                       thrown;

static void note(const std::string& what)
{
    if (pending.empty())
        pending = what;
}
static void may_throw()
{
    if (arm > 0 && --arm == 0)
    {
        thrown = true;
        throw Boom{};
    }
}

static const int MOVED = -7777;

template <int K>
struct Tracked
{
    using AsnId = fast_ber::ExplicitId<fast_ber::UniversalTag::sequence>;
    int       v;
    int*      heap; // owned, so that lost or doubled destruction is also a leak or a double free
    explicit  Tracked(std::pair<int, int> p) : v(0) { may_throw(); in(p.first * 100 + p.second); }
    Tracked() : v(0) { in(0); }
    Tracked(int x) : v(0) { may_throw(); in(x); }
    Tracked(int x, int y) : v(0) { may_throw(); in(x * 100 + y); }
    Tracked(std::initializer_list<long> il, int y) : v(0)
    {
        may_throw();
        int s = y;
        for (long x : il) s += static_cast<int>(x);
        in(s);
    }
    Tracked(const Tracked& o) : v(0) { o.check("copied from"); may_throw(); in(o.v); }
    Tracked(Tracked&& o) noexcept(K == 0) : v(0) { o.check("moved from"); in(o.v); o.set(MOVED); }
    Tracked& operator=(const Tracked& o)
    {
        check("assigned to"), o.check("assigned from");
        may_throw();
        set(o.v);
        return *this;
    }
    Tracked& operator=(Tracked&& o) noexcept(K == 0)
    {
        check("move assigned to"), o.check("move assigned from");
        if (this != &o)
        {
            set(o.v);
            o.set(MOVED);
        }
        return *this;
    }
    ~Tracked()
    {
        auto it = live.find(this);
        if (it == live.end())
            note("an object is destroyed which is not alive");
        else
        {
            if (it->second != K)
                note("an object is destroyed as another type");
            check("destroyed");
            live.erase(it);
        }
        ++destructions;
        delete heap;
        heap = nullptr;
    }
    void in(int x)
    {
        ++constructions;
        heap = nullptr;
        if (!live.emplace(this, K).second)
            note("an object is constructed over a living one");
        heap = new int(x);
        v    = x;
    }
    void set(int x) { v = *heap = x; }
    void check(const char* how) const
    {
        auto it = live.find(this);
        if (it == live.end() || it->second != K)
            note(std::string("an object which is not alive is ") + how);
        else if (*heap != v)
            note("an object lost its value");
    }
};
template <int K> bool operator==(const Tracked<K>& a, const Tracked<K>& b) { a.check("compared"), b.check("compared"); return a.v == b.v; }
template <int K> bool operator!=(const Tracked<K>& a, const Tracked<K>& b) { return !(a == b); }
template <int K> bool operator<(const Tracked<K>& a, const Tracked<K>& b) { a.check("compared"), b.check("compared"); return a.v < b.v; }
template <int K> bool operator>(const Tracked<K>& a, const Tracked<K>& b) { return b < a; }
template <int K> bool operator<=(const Tracked<K>& a, const Tracked<K>& b) { return !(b < a); }
template <int K> bool operator>=(const Tracked<K>& a, const Tracked<K>& b) { return !(a < b); }

using A = Tracked<0>;
using B = Tracked<1>;
using C = Tracked<2>;
struct S : std::string
{
    using AsnId = fast_ber::ExplicitId<fast_ber::UniversalTag::octet_string>;
    S() = default;
    S(const std::string& s) : std::string(s) {}
};

template <size_t I> struct Alt;
template <> struct Alt<0> { using T = A; };
template <> struct Alt<1> { using T = B; };
template <> struct Alt<2> { using T = C; };
template <> struct Alt<3> { using T = S; };

static std::string text(int x) { return "a string too long to be stored inline: " + std::to_string(x); }
template <int K> int valof(const Tracked<K>& t) { t.check("read"); return t.v; }
static int valof(const S& s)
{
    auto p = s.rfind(' ');
    return s.empty() ? MOVED : p == std::string::npos ? -1 : std::atoi(s.c_str() + p + 1);
}
template <typename T> T make(int x) { return T(x); }
template <> S make<S>(int x) { return S(text(x)); }

using Id0     = fast_ber::ExplicitId<fast_ber::UniversalTag::sequence>;
using Dyn     = fast_ber::dynamic::DynamicVariant<A, B, C, S>;
using StatCh  = fast_ber::Choice<fast_ber::Choices<A, B, C, S>, Id0, fast_ber::StorageMode::static_>;
using DynCh   = fast_ber::Choice<fast_ber::Choices<A, B, C, S>, Id0, fast_ber::StorageMode::dynamic>;

static const size_t NPOS = size_t(-1);

struct ForDyn
{
    template <size_t I> using InIndex = fast_ber::dynamic::in_place_index_t<I>;
    template <typename T> using InType = fast_ber::dynamic::in_place_type_t<T>;
    static const bool strong = true, heap = true;
    template <size_t I, typename V> static auto get(V&& v) -> decltype(fast_ber::dynamic::get<I>(std::forward<V>(v))) { return fast_ber::dynamic::get<I>(std::forward<V>(v)); }
    template <typename T, typename V> static auto gett(V&& v) -> decltype(fast_ber::dynamic::get<T>(std::forward<V>(v))) { return fast_ber::dynamic::get<T>(std::forward<V>(v)); }
    template <size_t I, typename V> static auto get_if(V* v) -> decltype(fast_ber::dynamic::get_if<I>(v)) { return fast_ber::dynamic::get_if<I>(v); }
    template <typename T, typename V> static auto get_ift(V* v) -> decltype(fast_ber::dynamic::get_if<T>(v)) { return fast_ber::dynamic::get_if<T>(v); }
    template <typename T, typename V> static bool holds(const V& v) { return fast_ber::dynamic::holds_alternative<T>(v); }
    template <typename F, typename V> static void visit(F&& f, V& v) { fast_ber::dynamic::visit(f, v); }
    template <typename V> static void swap(V& a, V& b) { using fast_ber::dynamic::swap; swap(a, b); }
    using Bad = fast_ber::dynamic::BadVariantAccess;
};
template <bool dyn>
struct ForChoice
{
    template <size_t I> using InIndex = fast_ber::in_place_index_t<I>;
    template <typename T> using InType = fast_ber::in_place_type_t<T>;
    static const bool strong = dyn, heap = dyn;
    template <size_t I, typename V> static auto get(V&& v) -> decltype(fast_ber::get<I>(std::forward<V>(v))) { return fast_ber::get<I>(std::forward<V>(v)); }
    template <typename T, typename V> static auto gett(V&& v) -> decltype(fast_ber::get<T>(std::forward<V>(v))) { return fast_ber::get<T>(std::forward<V>(v)); }
    template <size_t I, typename V> static auto get_if(V* v) -> decltype(fast_ber::get_if<I>(v)) { return fast_ber::get_if<I>(v); }
    template <typename T, typename V> static auto get_ift(V* v) -> decltype(fast_ber::get_if<T>(v)) { return fast_ber::get_if<T>(v); }
    template <typename T, typename V> static bool holds(const V& v) { return fast_ber::holds_alternative<T>(v); }
    template <typename F, typename V> static void visit(F&& f, V& v) { fast_ber::visit(f, v); }
    template <typename V> static void swap(V& a, V& b) { a.swap(b); }
    using Bad = std::exception;
};

struct Op
{
    char op;
    int  a, b, x, arm;
};

struct Seen
{
    std::map<std::string, long> n;
    void operator()(const std::string& k, long c = 1) { n[k] += c; }
};
static Seen seen;

struct Model
{
    size_t index = NPOS; // NPOS: holds nothing
    int    value = 0;
    bool   operator==(const Model& o) const { return index == o.index && (index == NPOS || value == o.value); }
};
static std::string str(const Model& m) { return m.index == NPOS ? std::string("nothing") : "alternative " + std::to_string(m.index) + " = " + std::to_string(m.value); }

struct PtrVisitor
{
    const void** p;
    size_t*      which;
    int*         calls;
    template <int K> void operator()(const Tracked<K>& t) const { *p = &t, *which = K, ++*calls; }
    void operator()(const S& t) const { *p = &t, *which = 3, ++*calls; }
};

static const int SLOTS = 4;

template <typename V, typename F>
struct VariantRunner
{
    alignas(16) unsigned char raw[SLOTS][sizeof(V)];
    bool                     there[SLOTS] = {};
    Model                    m[SLOTS];
    V&                       at(int i) { return *reinterpret_cast<V*>(raw[i]); }

    ~VariantRunner()
    {
        for (int i = 0; i < SLOTS; ++i)
            if (there[i])
                at(i).~V();
    }

    template <size_t I>
    void look_at(V& v, Model& out, const void*& addr)
    {
        const V& c   = v;
        bool     has = v.index() == I;
        using T      = typename Alt<I>::T;
        if ((F::template get_if<I>(&v) != nullptr) != has || (F::template get_if<I>(&c) != nullptr) != has || (F::template get_ift<T>(&v) != nullptr) != has ||
            (F::template get_ift<T>(&c) != nullptr) != has)
            viol("get_if does not agree with index()");
        if (F::template holds<T>(c) != has)
            viol("holds_alternative does not agree with index()");
        for (int k = 0; k < 4; ++k)
        {
            bool ok = true;
            try
            {
                const void* p = k == 0 ? static_cast<const void*>(&F::template get<I>(v)) : k == 1 ? static_cast<const void*>(&F::template get<I>(c))
                              : k == 2 ? static_cast<const void*>(&F::template gett<T>(v)) : static_cast<const void*>(&F::template gett<T>(c));
                if (has && p != F::template get_if<I>(&c))
                    viol("get and get_if refer to different objects");
            }
            catch (const typename F::Bad&)
            {
                ok = false;
            }
            if (ok != has)
                viol(has ? "get throws for the alternative held" : "get returns an alternative which is not held");
        }
        if (has)
        {
            out.index = I;
            addr      = F::template get_if<I>(&c);
            if (I < 3)
            {
                auto it = live.find(addr);
                if (it == live.end() || it->second != static_cast<int>(I))
                    viol("the alternative reported is not a living object of its type");
            }
            out.value = valof(*F::template get_if<I>(&c));
        }
    }

    Model look(int i, const void*& addr)
    {
        V&    v = at(i);
        Model r;
        addr = nullptr;
        if (v.valueless_by_exception() != (v.index() == NPOS))
            viol("valueless_by_exception does not agree with index()");
        if (v.index() != NPOS && v.index() > 3)
            viol("index() is no alternative");
        look_at<0>(v, r, addr);
        look_at<1>(v, r, addr);
        look_at<2>(v, r, addr);
        look_at<3>(v, r, addr);
        const void* p     = nullptr;
        size_t      which = NPOS;
        int         calls = 0;
        bool        bad   = false;
        PtrVisitor  vis{&p, &which, &calls};
        try
        {
            const V& c = v;
            F::visit(vis, c);
        }
        catch (const typename F::Bad&)
        {
            bad = true;
        }
        if (bad != (r.index == NPOS) || calls != (bad ? 0 : 1) || which != r.index || p != addr)
            viol("visit does not visit the alternative held exactly once");
        return r;
    }

    void check_all(const char* when)
    {
        size_t                tracked = 0;
        std::set<const void*> addrs;
        for (int i = 0; i < SLOTS; ++i)
        {
            if (!there[i])
                continue;
            const void* p;
            Model       r = look(i, p);
            if (!(r == m[i]))
                viol(std::string(when) + ": slot " + std::to_string(i) + " holds " + str(r) + " instead of " + str(m[i]));
            if (p && !addrs.insert(p).second)
                viol("two variants share an object");
            tracked += r.index < 3;
        }
        if (live.size() != tracked)
            viol(std::to_string(live.size()) + " objects are alive, " + std::to_string(tracked) + " are held");
        if (!pending.empty())
            viol(pending);
    }

    void compare(int a, int b)
    {
        const V &x = at(a), &y = at(b);
        int      c; // as X.: valueless is less than everything
        size_t   i = m[a].index + 1, j = m[b].index + 1;
        if (i != j)
            c = i < j ? -1 : 1;
        else if (i == 0)
            c = 0;
        else if (m[a].index == 3)
        {
            S s = m[a].value == MOVED ? S() : text(m[a].value), t = m[b].value == MOVED ? S() : text(m[b].value);
            c   = s < t ? -1 : s == t ? 0 : 1;
        }
        else
            c = m[a].value < m[b].value ? -1 : m[a].value == m[b].value ? 0 : 1;
        if ((x == y) != (c == 0) || (x != y) != (c != 0) || (x < y) != (c < 0) || (x > y) != (c > 0) || (x <= y) != (c <= 0) || (x >= y) != (c >= 0))
            viol("comparing " + str(m[a]) + " with " + str(m[b]) + " does not compare what they hold");
        seen(c < 0 ? "compared less" : c > 0 ? "compared greater" : "compared equal");
    }

    // -> the model of slot a if the operation completes
    template <size_t I>
    bool alternative(const Op& o)
    {
        using T = typename Alt<I>::T;
        int a   = o.a;
        V&  v   = at(a);
        switch (o.op)
        {
        case 'v': { T t = make<T>(o.x); arm = o.arm; new (raw[a]) V(t); break; }
        case 'V': { T t = make<T>(o.x); arm = o.arm; new (raw[a]) V(std::move(t)); break; }
        case 'w': { const T t = make<T>(o.x); arm = o.arm; new (raw[a]) V(t); break; }
        case 't': { T t = make<T>(o.x); arm = o.arm; new (raw[a]) V(typename F::template InType<T>{}, t); break; }
        case 'i': { T t = make<T>(o.x); arm = o.arm; new (raw[a]) V(typename F::template InIndex<I>{}, std::move(t)); break; }
        case 'e': { T t = make<T>(o.x); arm = o.arm; T& r = v.template emplace<T>(t); if (static_cast<const void*>(&r) != F::template get_if<I>(&v)) viol("emplace returns another object"); break; }
        case 'E': { T t = make<T>(o.x); arm = o.arm; T& r = v.template emplace<I>(std::move(t)); if (static_cast<const void*>(&r) != F::template get_if<I>(&v)) viol("emplace returns another object"); break; }
        case '=': { T t = make<T>(o.x); arm = o.arm; v = t; break; }
        case '>': { T t = make<T>(o.x); arm = o.arm; v = std::move(t); break; }
        default: return false;
        }
        m[a].index = I, m[a].value = o.x;
        return true;
    }
    template <size_t I>
    bool several(const Op& o) // from more than one argument
    {
        using T = typename Alt<I>::T;
        int a   = o.a;
        V&  v   = at(a);
        int y   = o.x % 10;
        switch (o.op)
        {
        case 'n': arm = o.arm; new (raw[a]) V(typename F::template InType<T>{}, o.x, y); m[a].value = o.x * 100 + y; break;
        case 'l': arm = o.arm; new (raw[a]) V(typename F::template InType<T>{}, {long(o.x), 5L}, y); m[a].value = o.x + 5 + y; break;
        case 'L': arm = o.arm; new (raw[a]) V(typename F::template InIndex<I>{}, {long(o.x), 6L}, y); m[a].value = o.x + 6 + y; break;
        case 'm': arm = o.arm; v.template emplace<T>(o.x, y); m[a].value = o.x * 100 + y; break;
        case 'M': arm = o.arm; v.template emplace<I>({long(o.x), 7L}, y); m[a].value = o.x + 7 + y; break;
        case 'k': arm = o.arm; v.template emplace<T>({long(o.x), 8L}, y); m[a].value = o.x + 8 + y; break;
        default: return false;
        }
        m[a].index = I;
        return true;
    }
    template <size_t I>
    void from_own(const Op& o)
    {
        using T    = typename Alt<I>::T;
        V&       v = at(o.a);
        const T& t = F::template get<I>(v);
        if (o.op == 'g')
        {
            int was = m[o.a].value;
            T   out(o.x % 2 ? F::template get<I>(std::move(v)) : F::template gett<T>(std::move(v)));
            if (out.v != was)
                viol("get of an rvalue returns another value");
            m[o.a].value = MOVED;
            return;
        }
        if (o.op == 'G')
        {
            F::template gett<T>(v) = T(o.x), m[o.a].value = o.x;
            return;
        }
        arm = o.arm;
        if (o.op == 's')
            v = t;
        else if (F::strong) // emplace of a std::variant's own value is undefined by the standard
        {
            if (o.op == 'u')
                v.template emplace<T>(t);
            else
                v.template emplace<0>(valof(t)), m[o.a].index = 0;
        }
    }

    void step(const Op& o)
    {
        int   a = o.a, b = o.b;
        Model before = m[a], from = m[b];
        bool  was = there[a];
        const void* addr_before = nullptr;
        const void* addr_b = nullptr;
        if (was) look(a, addr_before);
        if (there[b]) look(b, addr_b);
        thrown = false, arm = 0;
        bool constructs = std::string("dvVwtinlLcr").find(o.op) != std::string::npos;
        bool binary     = std::string("crCRxX?").find(o.op) != std::string::npos;
        if (constructs == was || (binary && !there[b]) || ((o.op == 'c' || o.op == 'r') && a == b))
        {
            seen("not applicable");
            return;
        }
        bool caught = false, moved = false;
        try
        {
            switch (o.op)
            {
            case 'd': new (raw[a]) V(); m[a].index = 0, m[a].value = 0; break;
            case 'c': arm = o.arm; new (raw[a]) V(static_cast<const V&>(at(b))); m[a] = from; break;
            case 'r': new (raw[a]) V(std::move(at(b))); m[a] = from; moved = true; break;
            case 'C': arm = o.arm; at(a) = static_cast<const V&>(at(b)); m[a] = from; break;
            case 'R': at(a) = std::move(at(b)); m[a] = from; moved = a != b; break;
            case 'x': at(a).swap(at(b)); std::swap(m[a], m[b]); break;
            case 'X': F::swap(at(a), at(b)); std::swap(m[a], m[b]); break;
            case '?': compare(a, b); break;
            case '~': at(a).~V(); there[a] = false; m[a] = Model(); break;
            case 's':
            case 'u':
            case 'U':
            case 'g':
            case 'G':
                switch (m[a].index)
                {
                case 0: from_own<0>(o); break;
                case 1: from_own<1>(o); break;
                case 2: from_own<2>(o); break;
                default: seen("not applicable"); return;
                }
                break;
            default:
            {
                bool ok = b == 0 ? alternative<0>(o) || several<0>(o) : b == 1 ? alternative<1>(o) || several<1>(o) : b == 2 ? alternative<2>(o) || several<2>(o)
                                                                                                                   : alternative<3>(o);
                if (!ok)
                {
                    seen("not applicable");
                    return;
                }
            }
            }
        }
        catch (const Boom&)
        {
            caught = true;
        }
        arm = 0;
        if (thrown != caught)
            viol("an exception of an element's constructor was lost");
        seen(std::string("operation ") + o.op + (caught ? " throwing" : ""));
        if (constructs)
            there[a] = !caught;
        if (caught)
        {
            m[a] = before;
            if (b != a && binary)
                m[b] = from;
            if (constructs)
                m[a] = Model();
            else
            {
                const void* now;
                Model       r = look(a, now);
                if (F::strong && now != addr_before)
                    viol("an operation which threw replaced the object held");
                if (!F::strong && r.index == NPOS)
                    m[a] = Model(), seen("valueless after an exception");
            }
        }
        else if (moved || o.op == 'R')
        {
            // what is left in the source is unspecified, but has to be consistent
            const void* now;
            Model       r = look(b, now);
            if (moved && (r.index != NPOS) && !(r.index == from.index && (r.value == MOVED)))
                viol("a variant moved from holds " + str(r));
            if (moved)
                m[b] = r;
            else if (!(r == from) && r.index != NPOS && !(r.index == from.index && r.value == MOVED))
                viol("self move leaves " + str(r));
            else
                m[b] = r;
            if (moved && F::heap && there[a])
            {
                look(a, now);
                if (now != addr_b)
                    viol("moving a heap variant copied its object");
            }
        }
    }

    void run(const std::vector<Op>& ops)
    {
        int n = 0;
        for (auto& o : ops)
        {
            ++n;
            try
            {
                step(o);
                check_all(o.arm ? "with an exception armed" : "after the operation");
            }
            catch (Viol& e)
            {
                e.what = "operation " + std::to_string(n) + " (" + o.op + "): " + e.what;
                throw;
            }
        }
        for (int i = 0; i < SLOTS; ++i)
            if (there[i])
            {
                there[i] = false;
                at(i).~V();
            }
        if (!pending.empty())
            viol("at the end: " + pending);
        if (!live.empty())
            viol(std::to_string(live.size()) + " objects are never destroyed");
    }
};

template <typename V, typename T, bool dyn>
struct OptionalRunner
{
    alignas(16) unsigned char raw[SLOTS][sizeof(V)];
    bool                     there[SLOTS] = {};
    Model                    m[SLOTS]; // index 0: has a value
    V&                       at(int i) { return *reinterpret_cast<V*>(raw[i]); }
    ~OptionalRunner()
    {
        for (int i = 0; i < SLOTS; ++i)
            if (there[i])
                at(i).~V();
    }
    Model look(int i, const void*& addr)
    {
        V&       v = at(i);
        const V& c = v;
        Model    r;
        addr = nullptr;
        if (v.has_value() != bool(v))
            viol("has_value does not agree with the conversion to bool");
        if (v.has_value())
        {
            addr = &*c;
            if (addr != static_cast<const void*>(&*v) || addr != static_cast<const void*>(c.operator->()) || addr != static_cast<const void*>(v.operator->()))
                viol("* and -> refer to different objects");
            if (!live.count(addr))
                viol("the value reported is not a living object");
            r.index = 0, r.value = valof(*c);
        }
        return r;
    }
    void check_all(const char* when)
    {
        size_t                n = 0;
        std::set<const void*> addrs;
        for (int i = 0; i < SLOTS; ++i)
        {
            if (!there[i])
                continue;
            const void* p;
            Model       r = look(i, p);
            if (!(r == m[i]))
                viol(std::string(when) + ": slot " + std::to_string(i) + " holds " + str(r) + " instead of " + str(m[i]));
            if (p && !addrs.insert(p).second)
                viol("two optionals share an object");
            n += r.index == 0;
        }
        if (live.size() != n)
            viol(std::to_string(live.size()) + " objects are alive, " + std::to_string(n) + " are held");
        if (!pending.empty())
            viol(pending);
    }
    void step(const Op& o)
    {
        int         a = o.a, b = o.b;
        Model       before = m[a], from = m[b];
        bool        was = there[a], caught = false, moved = false;
        const void *addr_before = nullptr, *addr_b = nullptr;
        if (was) look(a, addr_before);
        if (there[b]) look(b, addr_b);
        thrown = false, arm = 0;
        bool constructs = std::string("d0vVkcr").find(o.op) != std::string::npos;
        bool binary     = std::string("crCRx?").find(o.op) != std::string::npos;
        if (constructs == was || (binary && !there[b]) || ((o.op == 'c' || o.op == 'r') && a == b))
        {
            seen("not applicable");
            return;
        }
        V&    v   = at(a);
        Model now = {};
        now.index = 0, now.value = o.x;
        try
        {
            switch (o.op)
            {
            case 'd': new (raw[a]) V(); now = Model(); break;
            case '0': new (raw[a]) V(fast_ber::empty); now = Model(); break;
            case 'v': { T t(o.x); arm = o.arm; new (raw[a]) V(static_cast<const T&>(t)); break; }
            case 'V': { T t(o.x); arm = o.arm; new (raw[a]) V(std::move(t)); break; }
            case 'k': { arm = o.arm; new (raw[a]) V(o.x); break; }
            case 'c': arm = o.arm; new (raw[a]) V(static_cast<const V&>(at(b))); now = from; break;
            case 'r': new (raw[a]) V(std::move(at(b))); now = from; moved = true; break;
            case 'C': arm = o.arm; v = static_cast<const V&>(at(b)); now = from; break;
            case 'R': v = std::move(at(b)); now = from; moved = a != b; break;
            case 'x': { using std::swap; swap(v, at(b)); now = from; m[b] = before; if (a == b) now = before; break; }
            case 'e': { T t(o.x); arm = o.arm; T& r = v.emplace(static_cast<const T&>(t)); if (&r != &*v) viol("emplace returns another object"); break; }
            case 'E': { arm = o.arm; v.emplace(o.x, 3); now.value = o.x * 100 + 3; break; }
            case 'f': { v.emplace(); now.value = 0; break; }
            case '=': { T t(o.x); arm = o.arm; v = static_cast<const T&>(t); break; }
            case '>': { T t(o.x); arm = o.arm; v = std::move(t); break; }
            case 'j': { arm = o.arm; v = o.x; break; }
            case 'z': v = fast_ber::empty; now = Model(); break;
            case 's': if (!v.has_value()) { seen("not applicable"); return; } arm = o.arm; v = *v; now = before; break;
            case 'u': if (!v.has_value() || !dyn) { seen("not applicable"); return; } arm = o.arm; v.emplace(*v); now = before; break;
            case '?':
            {
                bool eq = m[a] == m[b];
                if ((v == at(b)) != eq || (v != at(b)) == eq)
                    viol("comparing " + str(m[a]) + " with " + str(m[b]) + " does not compare what they hold");
                seen(eq ? "compared equal" : "compared different");
                now = before;
                break;
            }
            case '!':
            {
                int  x = before.index == 0 && o.b % 2 ? before.value : o.x;
                T    t(x);
                bool eq = before.index == 0 && before.value == x;
                if ((v == t) != eq || (v != t) == eq)
                    viol("comparing " + str(m[a]) + " with a value does not compare what it holds");
                seen(eq ? "compared equal" : "compared different");
                now = before;
                break;
            }
            case '~': v.~V(); there[a] = false; now = Model(); break;
            default: seen("not applicable"); return;
            }
        }
        catch (const Boom&)
        {
            caught = true;
        }
        arm = 0;
        if (thrown != caught)
            viol("an exception of an element's constructor was lost");
        seen(std::string("operation ") + o.op + (caught ? " throwing" : ""));
        if (constructs)
            there[a] = !caught;
        if (!caught)
            m[a] = now;
        else
        {
            m[a] = constructs ? Model() : before;
            if (!constructs)
            {
                const void* p;
                Model       r = look(a, p);
                if (dyn && p != addr_before)
                    viol("an operation which threw replaced the object held");
                if (r.index == NPOS)
                    m[a] = r;
            }
        }
        if (moved)
        {
            const void* p;
            Model       r = look(b, p);
            if (r.index != NPOS && r.value != MOVED)
                viol("an optional moved from holds " + str(r));
            m[b] = r;
            if (dyn && from.index != NPOS)
            {
                look(a, p);
                if (p != addr_b)
                    viol("moving a heap optional copied its object");
            }
        }
        else if (o.op == 'R')
        {
            const void* p;
            Model       r = look(b, p);
            if (r.index != NPOS && !(r == from))
                viol("self move leaves " + str(r));
            m[b] = r;
        }
    }
    void run(const std::vector<Op>& ops)
    {
        int n = 0;
        for (auto& o : ops)
        {
            ++n;
            try
            {
                step(o);
                check_all(o.arm ? "with an exception armed" : "after the operation");
            }
            catch (Viol& e)
            {
                e.what = "operation " + std::to_string(n) + " (" + o.op + "): " + e.what;
                throw;
            }
        }
        for (int i = 0; i < SLOTS; ++i)
            if (there[i])
            {
                there[i] = false;
                at(i).~V();
            }
        if (!pending.empty())
            viol("at the end: " + pending);
        if (!live.empty())
            viol(std::to_string(live.size()) + " objects are never destroyed");
    }
};

// A tree which holds variants of itself: assigning a variant one of its own descendants
struct Tree;
using TreeV = fast_ber::dynamic::DynamicVariant<A, Tree>;
struct Tree
{
    std::vector<TreeV>             kids;
    fast_ber::DynamicOptional<A>   mark;
};
static bool operator==(const Tree& a, const Tree& b) { return a.kids == b.kids && a.mark == b.mark; }

struct Shape // the model: a plain tree
{
    bool               leaf  = true;
    int                value = 0; // leaf: its value; otherwise the mark, 0 for none
    std::vector<Shape> kids;
    bool operator==(const Shape& o) const { return leaf == o.leaf && value == o.value && kids == o.kids; }
    size_t count() const
    {
        if (leaf)
            return 1;
        size_t n = value ? 1 : 0;
        for (auto& k : kids) n += k.count();
        return n;
    }
};
static TreeV build(const Shape& s)
{
    if (s.leaf)
        return TreeV(A(s.value));
    Tree t;
    for (auto& k : s.kids) t.kids.push_back(build(k));
    if (s.value)
        t.mark = A(s.value);
    return TreeV(std::move(t));
}
static Shape shape_of(const TreeV& v)
{
    Shape s;
    if (v.index() == 0)
        s.value = fast_ber::dynamic::get<0>(v).v, valof(fast_ber::dynamic::get<0>(v));
    else if (v.index() == 1)
    {
        s.leaf         = false;
        const Tree& t  = fast_ber::dynamic::get<1>(v);
        s.value        = t.mark.has_value() ? valof(*t.mark) : 0;
        for (auto& k : t.kids) s.kids.push_back(shape_of(k));
    }
    else
        viol("a tree holds nothing");
    return s;
}

struct TreeRunner
{
    TreeV  v[2]{TreeV(A(1)), TreeV(A(2))};
    Shape  m[2];
    unsigned rnd = 1;
    unsigned next(unsigned n) { rnd = rnd * 1103515245u + 12345u; return (rnd >> 16) % n; }
    Shape random(int depth)
    {
        Shape s;
        s.leaf = depth == 0 || next(3) == 0;
        s.value = s.leaf ? 1 + next(50) : next(2) * (1 + next(50));
        if (!s.leaf)
            for (unsigned k = next(4); k > 0; --k) s.kids.push_back(random(depth - 1));
        return s;
    }
    // a random node of both trees
    std::pair<TreeV*, Shape*> descend(TreeV* t, Shape* s)
    {
        while (!s->leaf && !s->kids.empty() && next(4))
        {
            size_t k = next(s->kids.size());
            t        = &fast_ber::dynamic::get<1>(*t).kids[k];
            s        = &s->kids[k];
        }
        return {t, s};
    }
    void run(const std::vector<Op>& ops)
    {
        m[0].value = 1, m[1].value = 2;
        int n = 0;
        for (auto& o : ops)
        {
            ++n;
            rnd      = o.x * 7919u + o.a * 31u + o.b + 1;
            int i    = o.a & 1, j = o.b & 1;
            auto dst = descend(&v[i], &m[i]);
            auto src = descend(&v[j], &m[j]);
            thrown   = false;
            bool caught = false;
            Shape was = *dst.second, with = *src.second;
            // assignments between a node and its own ancestor or descendant are the interesting ones
            bool inside = false; // is the destination inside the source?
            {
                std::vector<const Shape*> todo{src.second};
                while (!todo.empty())
                {
                    const Shape* x = todo.back();
                    todo.pop_back();
                    inside = inside || x == dst.second;
                    for (auto& k : x->kids) todo.push_back(&k);
                }
            }
            try
            {
                switch (o.op)
                {
                case 'C': arm = o.arm; *dst.first = static_cast<const TreeV&>(*src.first); *dst.second = with; break;
                case 'R':
                    if (inside)
                        continue; // the source would be left inside itself
                    *dst.first = std::move(*src.first);
                    with = *src.second;
                    *dst.second = with;
                    // what was moved from holds nothing, unless the destination was an ancestor and it is gone
                    {
                        std::vector<TreeV*> todo{&v[0], &v[1]};
                        // give every valueless node a value again
                        fix(v[0]), fix(v[1]);
                        m[0] = shape_of(v[0]), m[1] = shape_of(v[1]);
                        TreeV& d = *dst.first;
                        if (!(shape_of(d) == with))
                            viol("operation " + std::to_string(n) + " (R): moving a tree did not move its value");
                    }
                    break;
                case 'b': { Shape s = random(3); *dst.first = build(s); *dst.second = s; break; }
                case 'e':
                    if (!with.leaf)
                        continue;
                    arm = o.arm;
                    dst.first->emplace<A>(fast_ber::dynamic::get<0>(*src.first));
                    *dst.second = with;
                    break;
                case 'u':
                    if (with.leaf)
                        continue;
                    arm = o.arm;
                    dst.first->emplace<Tree>(fast_ber::dynamic::get<1>(*src.first));
                    *dst.second = with;
                    break;
                case '?':
                    if ((*dst.first == *src.first) != (was == with) || (*dst.first != *src.first) == (was == with))
                        viol("operation " + std::to_string(n) + " (?): comparing trees does not compare what they hold");
                    break;
                default: continue;
                }
            }
            catch (const Boom&)
            {
                caught = true;
            }
            arm = 0;
            if (caught)
                *dst.second = was;
            if (caught != thrown)
                viol("an exception of an element's constructor was lost");
            seen(std::string("tree operation ") + o.op + (caught ? " throwing" : ""));
            std::string at = "operation " + std::to_string(n) + " (" + o.op + "): ";
            if (!(shape_of(v[0]) == m[0]) || !(shape_of(v[1]) == m[1]))
                viol(at + "a tree does not hold what the model holds");
            if (live.size() != m[0].count() + m[1].count())
                viol(at + std::to_string(live.size()) + " objects are alive, " + std::to_string(m[0].count() + m[1].count()) + " are held");
            if (!pending.empty())
                viol(at + pending);
            if (m[0].count() + m[1].count() > 4000)
                v[0] = A(1), v[1] = A(2), m[0] = Shape(), m[1] = Shape(), m[0].value = 1, m[1].value = 2;
        }
        v[0] = A(0), v[1] = A(0);
        if (live.size() != 2)
            viol(std::to_string(live.size() - 2) + " objects are never destroyed");
    }
    static void fix(TreeV& t)
    {
        if (t.valueless_by_exception())
            t = A(9);
        else if (t.index() == 1)
            for (auto& k : fast_ber::dynamic::get<1>(t).kids) fix(k);
    }
};

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
#define VF_HOOKS
#endif
#endif
static long blocks;
static void hook_malloc(const volatile void*, size_t) { ++blocks; }
static void hook_free(const volatile void* p) { blocks -= p != nullptr; }

static void put(const std::string& s)
{
    size_t off = 0;
    while (off < s.size())
    {
        ssize_t n = ::write(1, s.data() + off, s.size() - off);
        if (n <= 0)
            _exit(97);
        off += static_cast<size_t>(n);
    }
}
static void on_cpu_limit(int)
{
    const char msg[] = "!HANG\n";
    if (::write(1, msg, sizeof msg - 1) < 0)
        _exit(97);
    _exit(77);
}

template <typename R>
static std::string history(const std::vector<Op>& ops)
{
    std::string out;
    live.clear(), pending.clear();
    arm = 0;
    constructions = destructions = 0;
    seen.n.clear();
    {
        std::vector<Op> copy = ops;
        try
        {
            R r;
            r.run(ops);
        }
        catch (const Viol& e)
        {
            arm = 0;
            return "VIOL " + e.what;
        }
        if (!pending.empty())
            return "VIOL at the end: " + pending;
        if (constructions != destructions)
            return "VIOL " + std::to_string(constructions) + " constructions, " + std::to_string(destructions) + " destructions";
    }
    return out;
}

int main(int argc, char** argv)
{
    if (argc < 3)
        return 2;
#ifdef VF_HOOKS
    __sanitizer_install_malloc_and_free_hooks(hook_malloc, hook_free);
#endif
    std::map<std::string, std::string (*)(const std::vector<Op>&)> kinds;
    kinds["DynamicVariant"]     = history<VariantRunner<Dyn, ForDyn>>;
    kinds["Choice-static"]      = history<VariantRunner<StatCh, ForChoice<false>>>;
    kinds["Choice-dynamic"]     = history<VariantRunner<DynCh, ForChoice<true>>>;
    kinds["DynamicOptional"]    = history<OptionalRunner<fast_ber::DynamicOptional<A>, A, true>>;
    kinds["Optional-static"]    = history<OptionalRunner<fast_ber::Optional<A, fast_ber::StorageMode::static_>, A, false>>;
    kinds["Optional-static-B"]  = history<OptionalRunner<fast_ber::Optional<B, fast_ber::StorageMode::static_>, B, false>>;
    kinds["Optional-dynamic"]   = history<OptionalRunner<fast_ber::Optional<A, fast_ber::StorageMode::dynamic>, A, true>>;
    kinds["Optional-dynamic-B"] = history<OptionalRunner<fast_ber::Optional<B, fast_ber::StorageMode::dynamic>, B, true>>;
    kinds["Tree"]               = history<TreeRunner>;
    std::ifstream in(argv[1]);
    long          skip  = std::atol(argv[2]);
    int           limit = argc > 3 ? std::atoi(argv[3]) : 10;
    signal(SIGVTALRM, on_cpu_limit);
    std::string line;
    while (std::getline(in, line))
    {
        if (skip-- > 0)
            continue;
        itimerval tv{{0, 0}, {limit, 0}};
        setitimer(ITIMER_VIRTUAL, &tv, nullptr);
        std::istringstream ss(line);
        std::string        h, kind, item, out;
        ss >> h >> kind;
        std::vector<Op> ops;
        while (ss >> item)
        {
            Op o{};
            if (std::sscanf(item.c_str(), "%c.%d.%d.%d.%d", &o.op, &o.a, &o.b, &o.x, &o.arm) != 5)
                out = "!BAD operation " + item;
            ops.push_back(o);
        }
        if (out.empty() && !kinds.count(kind))
            out = "!BAD kind " + kind;
        if (out.empty())
        {
            (void)kinds[kind](std::vector<Op>{}); // warm up
            seen.n.clear();
            long before = blocks;
            live.clear();
            out = kinds[kind](ops);
            if (out.empty())
            {
                static char text[8192]; // not on the heap, whose blocks are counted
                int         at = std::snprintf(text, sizeof text, "ok objects constructed:%ld;", constructions);
                for (auto& p : seen.n)
                    if (at > 0 && at < int(sizeof text) - 200)
                        at += std::snprintf(text + at, sizeof text - at, "%s:%ld;", p.first.c_str(), p.second);
                std::map<std::string, long>().swap(seen.n);
                std::map<const void*, int>().swap(live);
                std::string().swap(pending);
                long rest = blocks - before;
                out       = rest > 0 ? "VIOL " + std::to_string(rest) + " blocks of memory are never released" : std::string(text);
            }
        }
        put(out + "\n");
    }
    return 0;
}
