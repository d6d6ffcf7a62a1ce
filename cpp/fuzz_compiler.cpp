// A libFuzzer target around the compiler's own main: the input is one module file, or two, separated by an octet of value 1.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <unistd.h>

extern "C" int compiler_main(int argc, char** argv);

static void write_file(const char* name, const uint8_t* data, size_t size)
{
    FILE* f = std::fopen(name, "wb");
    if (!f || std::fwrite(data, 1, size, f) != size)
    {
        std::abort();
    }
    std::fclose(f);
}

extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size)
{
    size_t first = 0;
    while (first < size && data[first] != 1)
    {
        first++;
    }
    write_file("a.asn", data, first);
    char  name[] = "fast_ber_compiler", a[] = "a.asn", b[] = "b.asn", out[] = "out";
    char* args[] = {name, a, out, nullptr, nullptr};
    int   n      = 3;
    if (first < size)
    {
        write_file("b.asn", data + first + 1, size - first - 1);
        args[2] = b;
        args[3] = out;
        n       = 4;
    }
    return compiler_main(n, args) == 0 ? 0 : 0;
}
