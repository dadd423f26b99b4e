// Included before every translation unit: the conversions of std::bitset and of integers to text written without a
// branch per bit and without a table of digit pairs.
#pragma once
#ifdef __cplusplus
#    include <bits/charconv.h>
namespace std::__detail {
template<> inline unsigned __to_chars_len<unsigned>(unsigned v, int base) noexcept
{
    unsigned n = 1;
    if (base == 10)
    {
        for (unsigned long long b = 10; n < 10 && v >= b; b *= 10)
            ++n;
        return n;
    }
    for (; v >= (unsigned)base; v /= base)
        ++n;
    return n;
}
template<> inline void __to_chars_10_impl<unsigned>(char* first, unsigned len, unsigned val) noexcept
{
    while (len)
    {
        first[--len] = '0' + val % 10;
        val /= 10;
    }
}
} // namespace std::__detail
#    include <bitset>
#    include <string>
namespace std {
#    define SX_BITSET(N)                                                                                                \
        template<> template<> inline void bitset<N>::_M_copy_to_string(string& s, char z, char o) const                 \
        {                                                                                                               \
            s.assign(N, z);                                                                                             \
            const unsigned long long v = to_ullong();                                                                   \
            for (size_t i = 0; i < N; ++i)                                                                              \
                s[N - 1 - i] = (v >> i & 1) ? o : z;                                                                    \
        }
SX_BITSET(4)
SX_BITSET(8)
SX_BITSET(16)
SX_BITSET(32)
SX_BITSET(64)
#    undef SX_BITSET
}
#endif
