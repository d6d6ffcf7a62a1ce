// Case loop: reads "<op> <type> <payload>" lines, writes one result line per case with write(2), so that the number
// of complete lines identifies the case during which the process died.
#include "vf.hpp"

#include <fstream>

extern "C" {
void __sanitizer_set_death_callback(void (*)(void));
}

namespace vf
{
static void put(const std::string& s)
{
    size_t off = 0;
    while (off < s.size())
    {
        ssize_t n = ::write(1, s.data() + off, s.size() - off);
        if (n <= 0)
            _exit(97);
        off += static_cast<size_t>(n);
    }
}

static void on_cpu_limit(int)
{
    const char m[] = "!HANG\n";
    if (::write(1, m, sizeof m - 1) < 0)
        _exit(97);
    _exit(77);
}

static void hook_malloc(const volatile void*, size_t) { AllocCount::live()++; }
static void hook_free(const volatile void* p)
{
    if (p)
        AllocCount::live()--;
}

int main_loop(int argc, char** argv)
{
    if (argc < 3)
    {
        for (auto& r : registry())
            std::printf("%s\n", r.first.c_str());
        return 0;
    }
    static NullBuf null_buf; // decode errors are formatted, then discarded
    std::cerr.rdbuf(&null_buf);
    AllocCount::live();
#if __has_feature(address_sanitizer)
    if (std::strchr(VF_OPS, 'L'))
        __sanitizer_install_malloc_and_free_hooks(hook_malloc, hook_free);
#endif
    std::ifstream in(argv[1]);
    long          skip  = std::atol(argv[2]);
    int           limit = argc > 3 ? std::atoi(argv[3]) : 10;
    signal(SIGVTALRM, on_cpu_limit);
    std::string line;
    while (std::getline(in, line))
    {
        if (skip-- > 0)
            continue;
        itimerval tv{{0, 0}, {limit, 0}};
        setitimer(ITIMER_VIRTUAL, &tv, nullptr);
        Out o;
        try
        {
            Reader      r(line);
            char        op   = r.get();
            r.expect(' ');
            std::string type = r.until(' ');
            auto        it   = registry().find(type);
            if (it == registry().end())
                bad("unknown type " + type);
            it->second(op, r, o);
        }
        catch (const BadCase& b)
        {
            o.s = "!BAD " + b.what;
        }
        catch (const std::exception& e)
        {
            o.s = std::string("!EXC ") + e.what();
        }
        catch (...)
        {
            o.s = "!EXC unknown";
        }
        for (auto& c : o.s)
            if (c == '\n')
                c = ' ';
        put(o.s + "\n");
    }
    return 0;
}
} // namespace vf

#ifdef VF_FUZZ
// The input: two octets which select the type, then what is decoded
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size)
{
    static std::vector<std::pair<std::string, vf::Fn>> types(vf::registry().begin(), vf::registry().end());
    static bool                                        first = true;
    if (first)
    {
        static vf::NullBuf null_buf;
        std::cerr.rdbuf(&null_buf);
        first = false;
    }
    if (size < 2)
    {
        return -1;
    }
    const auto&  t = types[(data[0] * 256u + data[1]) % types.size()];
    std::string  line;
    const char*  digits = "0123456789abcdef";
    for (size_t i = 2; i < size; i++)
    {
        line += digits[data[i] >> 4];
        line += digits[data[i] & 15];
    }
    vf::Out    o;
    vf::Reader r(line);
    t.second('D', r, o); // an exception is a finding
    return 0;
}
#elif !defined(VF_NO_MAIN)
int main(int argc, char** argv) { return vf::main_loop(argc, argv); }
#endif
