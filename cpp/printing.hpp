// C17: what a BerView over exactly sized memory prints.
#pragma once
#include "vf.hpp"

namespace vf
{
inline void run_print_view(char, Reader& r, Out& o)
{
    const std::string  in = r.hex(static_cast<size_t>(r.e - r.p) / 2);
    std::unique_ptr<uint8_t[]> heap(new uint8_t[in.size()]);
    std::copy(in.begin(), in.end(), heap.get());
    const fast_ber::BerView v(absl::Span<const uint8_t>(heap.get(), in.size()));
    std::ostringstream      s;
    s << v;
    o.put(v.is_valid() ? '+' : '-');
    o.str(hexof(s.str()));
}
} // namespace vf
