// compares the models of models.cpp with the library binaries (no pass): every sequence of up to 3 bytes from a set of
// boundary bytes, and all 4-byte sequences from a smaller set
#include <codecvt>
#include <cstdio>
#include <cstring>
#include <locale>
#include <vector>
#include "support/Utf8.h"
#define SX_MODELS_NATIVE
#include "../models.cpp"
int main()
{
    std::vector<int> b { 0, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf4, 0xf5, 0xff };
    std::codecvt_utf8<char32_t> cv;
    long n = 0, bad = 0;
    auto one = [&](const std::string& s) {
        for (size_t room : { 1u, 2u, 8u })
        {
            char32_t o1[8] = {}, o2[8] = {};
            const char* f1;
            char32_t* t1;
            mbstate_t st {};
            auto r1 = cv.in(st, s.data(), s.data() + s.size(), f1, o1, o1 + room, t1);
            const char* f2 = s.data();
            char32_t* t2 = o2;
            int r2 = sxm::ucs4_in(f2, s.data() + s.size(), t2, o2 + room, 0x10ffff);
            int r1i = r1 == std::codecvt_base::ok ? 0 : r1 == std::codecvt_base::partial ? 1 : 2;
            ++n;
            if (r1i != r2 || f1 != f2 || t1 - o1 != t2 - o2 || memcmp(o1, o2, sizeof o1))
            {
                if (bad++ < 10)
                {
                    printf("in mismatch:");
                    for (char c : s)
                        printf(" %02x", (unsigned char)c);
                    printf(" room %zu: %d/%ld/%ld vs %d/%ld/%ld\n", room, r1i, (long)(f1 - s.data()), (long)(t1 - o1), r2, (long)(f2 - s.data()), (long)(t2 - o2));
                }
            }
        }
        if (s.size())
        {
            auto a = antlrcpp::Utf8::decode(s);
            auto m = sxm::decode(s);
            if (a != m && bad++ < 10)
            {
                printf("decode mismatch:");
                for (char c : s)
                    printf(" %02x", (unsigned char)c);
                printf(": %x/%zu vs %x/%zu\n", (unsigned)a.first, a.second, (unsigned)m.first, m.second);
            }
        }
    };
    one("");
    for (int x : b)
    {
        one(std::string { (char)x });
        for (int y : b)
        {
            one(std::string { (char)x, (char)y });
            for (int z : b)
            {
                one(std::string { (char)x, (char)y, (char)z });
                for (int w : b)
                    one(std::string { (char)x, (char)y, (char)z, (char)w });
            }
        }
    }
    for (char32_t c : { 0u, 0x7fu, 0x80u, 0x7ffu, 0x800u, 0xd7ffu, 0xd800u, 0xdfffu, 0xe000u, 0xffffu, 0x10000u, 0x10ffffu, 0x110000u })
        for (size_t room = 0; room < 6; ++room)
        {
            char o1[8] = {}, o2[8] = {}, *t1, *t2 = o2;
            const char32_t *f1, *f2 = &c;
            mbstate_t st {};
            auto r1 = cv.out(st, &c, &c + 1, f1, o1, o1 + room, t1);
            int r2 = sxm::ucs4_out(f2, &c + 1, t2, o2 + room, 0x10ffff);
            int r1i = r1 == std::codecvt_base::ok ? 0 : r1 == std::codecvt_base::partial ? 1 : 2;
            if ((r1i != r2 || f1 != f2 || t1 - o1 != t2 - o2 || memcmp(o1, o2, 8)) && bad++ < 10)
                printf("out mismatch %x room %zu: %d vs %d\n", (unsigned)c, room, r1i, r2);
        }
    printf("%ld comparisons, %ld mismatches\n", n, bad);
    return bad != 0;
}
