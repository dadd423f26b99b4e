// P15: character expressions: substrings, duplication, concatenation, substitution and the count attribute.
#include "asm.h"
using namespace ah;
#ifndef NC
#    define NC 3
#endif
struct str
{
    std::vector<std::string> c; // characters
    std::string text() const
    {
        std::string r;
        for (auto& x : c)
            r += x;
        return r;
    }
    str sub(size_t b, size_t n) const
    {
        str r;
        for (size_t i = b; i < c.size() && i < b + n; ++i)
            r.c.push_back(c[i]);
        return r;
    }
    str operator+(const str& o) const
    {
        str r = *this;
        r.c.insert(r.c.end(), o.c.begin(), o.c.end());
        return r;
    }
};
static str lit(const char* s)
{
    str r;
    for (; *s; ++s)
        r.c.push_back(std::string(1, *s));
    return r;
}
// any string of n characters, each of one to four bytes of UTF-8
static str any_str(const char* name, unsigned n)
{
    str r;
    for (unsigned i = 0; i < n; ++i)
    {
        unsigned char b[4];
        __sx_symbolic(b, 4, name);
        unsigned len = 1 + sx::choose("bytes", 4);
        if (len == 1)
            sx::assume((b[0] >= 0x20) & (b[0] < 0x7f));
        else
        {
            sx::assume(len == 2 ? (b[0] >= 0xc2) & (b[0] < 0xe0) : len == 3 ? (b[0] >= 0xe1) & (b[0] < 0xed) : (b[0] >= 0xf1) & (b[0] < 0xf4));
            for (unsigned k = 1; k < len; ++k)
                sx::assume((b[k] & 0xc0) == 0x80);
        }
        r.c.push_back(std::string(b, b + len));
    }
    return r;
}
extern "C" void sx_setup()
{
    setup({ "&I SETA 1\n&S SETC 'AB'\n&R SETC '&S'(&I,&I)\n&R SETC '&S'(&I,*)\n&R SETC (&I)'&S'(&I,&I)\n&R SETC '&S'\n&R SETC '&S..A&S&S.B&I'(1,2).'&S'(1,1)\n&K SETA K'&R+K'&S(1)\n&B SETB (&I EQ 1)\n&R SETC 'A''&&'\n&R SETC (2)'A'.(3)'B'\n&R SETC (UPPER '&S')\n&R SETC 'A'(1,1)'B'\n" });
}
static void result(run& r, const str& want)
{
    auto v = r.var<hc::C_t>("R");
    sx::check(v.has_value(), "the expression has a value");
    sx::note("codes", r.codes());
    sx::note("value", *v);
    sx::check(!r.errors(), "valid expressions are not reported");
    sx::check(*v == want.text(), "value of a character expression");
    sx::check(r.var<hc::A_t>("K") == (int)want.c.size(), "count attribute");
}
extern "C" void sx_main()
{
    switch (sx::choose("form", 5))
    {
        case 0: // substring
        {
            auto s = any_str("s", sx::choose("length", NC + 1));
            int i = sx::any<int>("i"), j = sx::any<int>("j");
            bool rest = sx::choose("rest", 2);
            run r(std::string("&R SETC '&S'(&I,") + (rest ? "*" : "&J") + ")\n&K SETA K'&R\n", [&](hc::hlasm_context& c) {
                set_var<hc::C_t>(c, "S", s.text());
                set_var<hc::A_t>(c, "I", i);
                set_var<hc::A_t>(c, "J", j);
            });
            int n = s.c.size();
            if ((i >= 1) & (i <= n) & (rest | (j >= 0)))
            {
                unsigned b = 0;
                while (b + 1 < (unsigned)i)
                    ++b;
                unsigned m = 0;
                while (m < (unsigned)n && (rest || m < (unsigned)j))
                    ++m;
                result(r, s.sub(b, m));
                sx::cover("substring");
            }
            else if ((i < 0) | (!rest & (j < 0)) | ((i == 0) & !rest & (j > 0)) | ((i > n) & !rest & (j > 0)))
            {
                sx::note("codes", r.codes());
                sx::check(r.errors(), "a position outside the string is reported");
                sx::cover("invalid substring");
            }
            break;
        }
        case 1: // duplication
        {
            auto s = any_str("s", sx::choose("length", 3));
            int d = sx::any<int>("d");
            sx::assume((d < 5) | (d > 4064));
            bool sub = sx::choose("sub", 2);
            run r(std::string("&R SETC (&D)'&S.X'") + (sub ? "(1,2)" : "") + "\n&K SETA K'&R\n", [&](hc::hlasm_context& c) {
                set_var<hc::C_t>(c, "S", s.text());
                set_var<hc::A_t>(c, "D", d);
            });
            str t = s + lit("X"), want;
            if (sub)
                t = t.sub(0, 2);
            if ((d < 0) | (d > 4064))
            {
                sx::check(r.errors(), "an invalid duplication factor is reported");
                sx::cover("invalid factor");
                break;
            }
            for (int k = 0; k < d; ++k)
                want = want + t;
            result(r, want);
            sx::cover("duplication");
            break;
        }
        case 2: // concatenation
        {
            auto s = any_str("s", sx::choose("length", 3)), t = any_str("t", 1);
            static const char* const F[] = { "'&S&T'", "'&S.&T'", "'&S..&T'", "'A&S.B&T.C'", "'&S'.'&T'", "'&S.XY'(1,2).'&T'", "(2)'&S'.(0)'X'.(1)'&T'", "'&S''&T'", "'&S'(1,0).'&T.&T'(2,1)", "'&S(1).&T(1)'" };
            unsigned f = sx::choose("shape", 10);
            str want;
            switch (f)
            {
                case 0: case 1: case 4: case 9: want = s + t; break;
                case 2: want = s + lit(".") + t; break;
                case 3: want = lit("A") + s + lit("B") + t + lit("C"); break;
                case 5: want = (s + lit("XY")).sub(0, 2) + t; break;
                case 6: want = s + s + t; break;
                case 7: want = s + lit("'") + t; break;
                case 8: want = t; break;
            }
            if ((f == 8) & s.c.empty())
                return;
            run r((f == 9 ? std::string(" LCLC &S(2),&T(2)\n") : std::string()) + "&R SETC " + F[f] + "\n&K SETA K'&R\n", [&](hc::hlasm_context& c) {
                if (f != 9)
                {
                    set_var<hc::C_t>(c, "S", s.text());
                    set_var<hc::C_t>(c, "T", t.text());
                    return;
                }
                auto v = c.create_local_variable<hc::C_t>(c.ids().add("S"), false);
                v->access_set_symbol<hc::C_t>()->set_value(s.text(), 0);
                v = c.create_local_variable<hc::C_t>(c.ids().add("T"), false);
                v->access_set_symbol<hc::C_t>()->set_value(t.text(), 0);
            });
            if (f == 9)
            {
                // declared twice is reported; only the value counts
                sx::check(r.var<hc::C_t>("R") == want.text(), "value of a character expression");
            }
            else
                result(r, want);
            sx::cover("concatenation");
            break;
        }
        case 3: // substitution of integers
        {
            static const int B[] = { 0, 900, 9900, 99900, 999900, 9999900, 99999900, 999999900, 2147483647 - 255, -256, -1000, -100000, -1000000000, -2147483647 - 1 };
            long long v = B[sx::choose("window", sizeof(B) / sizeof(*B))];
            uint8_t o = sx::any<uint8_t>("offset");
            int a = int(v + o);
            run r("&R SETC '&A'\n&K SETA K'&R\n", [&](hc::hlasm_context& c) { set_var<hc::A_t>(c, "A", a); });
            auto t = r.var<hc::C_t>("R");
            sx::check(t.has_value() && !r.errors(), "an integer is substituted");
            // digits without leading zero that give the magnitude
            long long m = 0;
            bool digits = !t->empty();
            for (char c : *t)
            {
                digits = digits & (c >= '0') & (c <= '9');
                m = m * 10 + (c - '0');
            }
            sx::note("value", *t);
            sx::check(digits & (m == (a < 0 ? -(long long)a : a)), "digits of the magnitude of an integer");
            sx::check((t->size() == 1) | ((*t)[0] != '0'), "no leading zeros");
            sx::check(r.var<hc::A_t>("K") == (int)t->size(), "count attribute");
            sx::cover("integer");
            break;
        }
        case 4: // written characters and substitution of bits
        {
            bool b = sx::any<uint8_t>("b") & 1;
            auto s = any_str("s", 2);
            std::string w;
            for (auto& c : s.c)
            {
                sx::assume(c[0] != '&');
                w += c == "'" ? "''" : c;
            }
            run r("&R SETC '&B." + w + "'\n&K SETA K'&R\n", [&](hc::hlasm_context& c) { set_var<hc::B_t>(c, "B", b); });
            result(r, lit(b ? "1" : "0") + s);
            sx::cover("characters");
            break;
        }
    }
}
