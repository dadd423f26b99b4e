// P08: conditional-assembly built-in functions compute what they are documented to compute, for every argument.
// The oracle is written from the HLASM Language Reference, character by character; EBCDIC codes are asserted for the
// invariant character set only (the same in every EBCDIC code page), everything else by round trips.
#include "asm.h"
#include <climits>
using ah::run;
#ifndef SL
#define SL 3 // bytes per string argument
#endif
static unsigned char ebc[128]; // invariant characters: their EBCDIC code
static bool invariant[256]; // by EBCDIC code
static const char* fn[] = { "B2A", "C2A", "D2A", "DCLEN", "FIND", "INDEX", "ISBIN", "ISDEC", "ISHEX", "ISSYM", "X2A", // SETA
    "A2B", "A2C", "A2D", "A2X", "B2C", "B2D", "B2X", "BYTE", "C2B", "C2D", "C2X", "D2B", "D2C", "D2X", "DCVAL", "DEQUOTE", "DOUBLE",
    "LOWER", "SIGNED", "UPPER", "X2B", "X2C", "X2D", "UPPER-OP", "LOWER-OP", "DOUBLE-OP", "BYTE-OP", "SIGNED-OP" };
enum F { B2A, C2A, D2A, DCLEN, FIND, INDEX, ISBIN, ISDEC, ISHEX, ISSYM, X2A, A2B, A2C, A2D, A2X, B2C, B2D, B2X, BYTE, C2B, C2D, C2X, D2B, D2C, D2X,
    DCVAL, DEQUOTE, DOUBLE, LOWER, SIGNED, UPPER, X2B, X2C, X2D, NF };

extern "C" void sx_setup()
{
    struct { const char* c; unsigned char e; } t[] = { { " ", 0x40 }, { ".<(+", 0x4b }, { "&", 0x50 }, { "*);", 0x5c }, { "-/", 0x60 }, { ",%_>?", 0x6b },
        { ":#@'=\"", 0x7a }, { "abcdefghi", 0x81 }, { "jklmnopqr", 0x91 }, { "stuvwxyz", 0xa2 }, { "ABCDEFGHI", 0xc1 }, { "JKLMNOPQR", 0xd1 },
        { "STUVWXYZ", 0xe2 }, { "0123456789", 0xf0 } };
    for (auto& x : t)
        for (int i = 0; x.c[i]; ++i)
        {
            ebc[(unsigned char)x.c[i]] = (unsigned char)(x.e + i);
            invariant[x.e + i] = true;
        }
    std::vector<std::string> w;
    for (int i = 0; i < NF; ++i)
        for (auto arg : { "&A", "'&S'", "'&S','&T'" })
            for (auto type : { "SETA ", "SETC " })
                w.push_back(std::string("&A SETA 1\n&S SETC 'A'\n&T SETC 'A'\n&R ") + type + fn[i] + "(" + arg + ")\n");
    ah::setup(w);
}
static bool bin(const std::string& s)
{
    bool ok = true;
    for (unsigned char c : s)
        ok = ok & ((c == '0') | (c == '1'));
    return ok;
}
static bool hexd(unsigned char c) { return ((c >= '0') & (c <= '9')) | ((c >= 'A') & (c <= 'F')) | ((c >= 'a') & (c <= 'f')); }
static unsigned hexv(unsigned char c) { return (c & 15) + 9 * ((c >> 6) & 1); }
static bool hex(const std::string& s)
{
    bool ok = true;
    for (unsigned char c : s)
        ok = ok & hexd(c);
    return ok;
}
static uint32_t binv(const std::string& s)
{
    uint32_t v = 0;
    for (unsigned char c : s)
        v = v * 2 + (c & 1);
    return v;
}
static uint32_t hexval(const std::string& s)
{
    uint32_t v = 0;
    for (unsigned char c : s)
        v = v * 16 + hexv(c);
    return v;
}
static bool dec(const std::string& s, size_t from)
{
    bool ok = from < s.size();
    for (size_t i = from; i < s.size(); ++i)
        ok = ok & ((s[i] >= '0') & (s[i] <= '9'));
    return ok;
}
static int decv(const std::string& s, size_t from)
{
    int v = 0;
    for (size_t i = from; i < s.size(); ++i)
        v = v * 10 + (s[i] - '0');
    return v;
}
static char hexc(unsigned n) { return (char)('0' + n + (n > 9 ? 7 : 0)); }
// r is the decimal form of a (plus: with a plus sign)
static bool is_dec(const std::string& r, int a, bool plus)
{
    size_t from = 0;
    bool neg = a < 0;
    if (neg || plus)
    {
        if (r.size() < 2 || r[0] != (neg ? '-' : '+'))
            return false;
        from = 1;
    }
    if (!dec(r, from) || r.size() - from > 10 || (r.size() - from > 1 && r[from] == '0'))
        return false;
    uint64_t v = 0;
    for (size_t i = from; i < r.size(); ++i)
        v = v * 10 + (uint64_t)(r[i] - '0');
    return v == (neg ? -(int64_t)a : (int64_t)a);
}
static int some_int()
{
    static const int base[] = { 0, -256, 25500, 65436, 999900, 99999900, 2147483392, INT_MIN, -1000000128 };
    return base[sx::choose("base", sizeof base / sizeof *base)] + (int)sx::any<uint8_t>("d");
}
// UTF-8 form of Latin-1 characters, decoded
static bool latin(const std::string& s, std::vector<unsigned>& out)
{
    for (size_t i = 0; i < s.size(); ++i)
    {
        unsigned char c = s[i];
        if (c < 0x80)
            out.push_back(c);
        else
        {
            if ((c & 0xfc) != 0xc0 || i + 1 >= s.size() || ((unsigned char)s[i + 1] & 0xc0) != 0x80)
                return false;
            out.push_back((c & 3u) << 6 | ((unsigned char)s[i + 1] & 0x3fu));
            ++i;
        }
    }
    return true;
}
// characters with these EBCDIC codes
static void check_chars(const std::string& r, const std::vector<unsigned>& codes)
{
    std::vector<unsigned> l;
    sx::check(latin(r, l), "the result is well-formed text");
    sx::check(l.size() == codes.size(), "one character per byte");
    for (size_t i = 0; i < l.size(); ++i)
        if (l[i] < 0x80)
        {
            unsigned e = ebc[l[i]];
            sx::check((e == 0) | (e == codes[i]), "character of an EBCDIC code");
        }
        else
        {
            sx::check(!invariant[codes[i] & 255], "character of an EBCDIC code");
        }
}

extern "C" void sx_main()
{
#ifdef ONLY
    unsigned f = sx::any<uint8_t>("f");
    sx::assume(f == ONLY);
    f = ONLY;
#else
    unsigned f = sx::choose("f", NF + 4);
#endif
    int a = 0;
    std::string s, t, e;
    bool ok = true, num = f <= X2A;
    int exp = 0;
    std::string exps; // expected string, when it is computed directly
    bool direct = false;
    if (f >= NF)
    {
        // round trips: C2A(A2C(x)), X2A(A2X(x)), B2A(A2B(x)), C2X(X2C(s))
        if (f == NF + 3)
        {
            size_t n = 2 * sx::choose("n", 2);
            s = sx::str("s", n);
            for (unsigned char c : s)
                sx::assume(hexd(c));
            run r("&R SETC C2X(X2C('&S'))\n", [&](auto& c) { ah::set_var<std::string>(c, "S", s); });
            auto v = r.var<std::string>("R");
            sx::check(v && r.a->diags().empty(), "hexadecimal digits are accepted");
            sx::check(v->size() == n, "round trip X2C C2X");
            for (size_t i = 0; i < n; ++i)
                sx::check((unsigned char)(*v)[i] == (unsigned char)hexc(hexv(s[i])), "round trip X2C C2X");
            sx::cover("string round trip");
            return;
        }
        static const char* rt[] = { "C2A(A2C(&A))", "X2A(A2X(&A))", "B2A(A2B(&A))" };
        a = sx::any<int>("a");
        run r(std::string("&R SETA ") + rt[f - NF] + "\n", [&](auto& c) { ah::set_var<int>(c, "A", a); });
        auto v = r.var<int>("R");
        sx::check(v && r.a->diags().empty(), "a converted value is accepted by the inverse conversion");
        sx::check(*v == a, "round trip of an integer");
        sx::cover("integer round trip");
        return;
    }
    bool intarg = f == A2B || f == A2C || f == A2D || f == A2X || f == BYTE || f == SIGNED;
    if (intarg)
    {
        e = "&A";
        a = (f == A2D || f == SIGNED) ? some_int() : sx::any<int>("a");
    }
    else
    {
        // decimal text of a symbolic value is costly: fewer symbolic characters
        size_t n = sx::choose("n", f == C2D || f == X2D ? 2 : f == D2C ? 3 : SL + 1);
        s = sx::str("s", n);
        if (f == C2D || f == X2D)
            s.insert(0, f == C2D ? "   " : "FFFFF", sx::choose("prefix", f == C2D ? 4 : 6));
        for (unsigned char c : s)
            sx::assume(c < 0x80);
        e = "'&S'";
        if (f == C2A || f == C2B || f == C2X || f == C2D)
            for (unsigned char c : s)
                sx::assume(ebc[c] != 0);
        if (f == FIND || f == INDEX)
        {
            t = sx::str("t", sx::choose("m", 3));
            for (unsigned char c : t)
                sx::assume(c < 0x80);
            e += ",'&T'";
        }
        if (f == B2A || f == ISBIN || f == B2X || f == B2C || f == B2D)
        {
            unsigned z = sx::choose("prefix", 3);
            s.insert(0, std::string(z == 0 ? 0 : z == 1 ? 29 : 30, f == B2D ? '0' : '1'));
        }
        if (f == X2A || f == ISHEX)
            s.insert(0, std::string(sx::choose("prefix", 2) ? 6 : 0, 'F'));
        if (f == ISDEC || f == D2A)
        {
            unsigned z = sx::choose("prefix", 4);
            s.insert(0, z == 0 ? "" : z == 1 ? "214748364" : z == 2 ? "0000000000" : "-214748364");
        }
    }
    const size_t n = s.size();
    switch (f)
    {
        case B2A:
        case B2D:
            ok = (n <= 32) & bin(s);
            exp = (int)binv(s);
            break;
        case ISBIN:
            ok = n > 0;
            exp = (n <= 32) & bin(s);
            break;
        case B2X:
        case B2C:
            ok = bin(s);
            break;
        case X2A:
        case X2D:
            ok = (n <= 8) & hex(s);
            exp = (int)hexval(s);
            break;
        case ISHEX:
            ok = n > 0;
            exp = (n <= 8) & hex(s);
            break;
        case X2B:
        case X2C:
            ok = hex(s);
            break;
        case C2A:
        case C2D: {
            uint32_t v = 0;
            for (unsigned char c : s)
                v = v << 8 | ebc[c];
            ok = n <= 4;
            exp = (int)v;
            break;
        }
        case D2A:
        case D2B:
        case D2C:
        case D2X: {
            size_t from = n > 0 && (s[0] == '+' || s[0] == '-');
            ok = n == 0 ? (f == D2A || f == D2B) : dec(s, from) && n <= 11;
            if (ok && n)
            {
                int64_t v = 0;
                for (size_t i = from; i < n; ++i)
                    v = v * 10 + (s[i] - '0');
                if (s[0] == '-')
                    v = -v;
                ok = (v >= INT_MIN) & (v <= INT_MAX);
                exp = (int)v;
            }
            break;
        }
        case ISDEC: {
            ok = n > 0;
            int64_t v = 0;
            for (size_t i = 0; i < n; ++i)
                v = v * 10 + (s[i] - '0');
            exp = (n <= 10) & dec(s, 0) & (v <= INT_MAX);
            break;
        }
        case ISSYM:
            ok = n > 0;
            exp = 1;
            for (size_t i = 0; i < n; ++i)
            {
                unsigned char c = s[i], u = c & 0xdf;
                exp &= ((u >= 'A') & (u <= 'Z')) | (c == '_') | (c == '@') | (c == '#') | (c == '$') | (i > 0 ? (c >= '0') & (c <= '9') : false);
            }
            break;
        case DCLEN:
        case DCVAL:
            for (size_t i = 0; i < n; ++i)
            {
                if (i + 1 < n && (s[i] == '\'' || s[i] == '&') && s[i + 1] == s[i])
                    ++i;
                exps.push_back(s[i]);
            }
            exp = (int)exps.size();
            direct = true;
            break;
        case FIND:
            for (size_t i = n; i-- > 0;)
                for (char c : t)
                    exp = s[i] == c ? (int)i + 1 : exp;
            break;
        case INDEX:
            sx::assume(!t.empty());
            for (size_t i = n; i-- > 0;)
            {
                bool m = i + t.size() <= n;
                for (size_t k = 0; m & (k < t.size()); ++k)
                    if (s[i + k] != t[k])
                        m = false;
                exp = m ? (int)i + 1 : exp;
            }
            break;
        case BYTE:
            ok = (a >= 0) & (a <= 255);
            break;
        case DOUBLE:
            for (char c : s)
            {
                exps.push_back(c);
                if (c == '\'' || c == '&')
                    exps.push_back(c);
            }
            direct = true;
            break;
        case DEQUOTE:
            exps = s;
            if (!exps.empty() && exps.front() == '\'')
                exps.erase(0, 1);
            if (!exps.empty() && exps.back() == '\'')
                exps.pop_back();
            direct = true;
            break;
        case LOWER:
        case UPPER:
            for (unsigned char c : s)
            {
                bool x = f == LOWER ? (c >= 'A') & (c <= 'Z') : (c >= 'a') & (c <= 'z');
                exps.push_back((char)(c ^ (x ? 0x20 : 0)));
            }
            direct = true;
            break;
    }
    std::string text = std::string("&R ") + (num ? "SETA " : "SETC ") + fn[f] + "(" + e + ")\n";
    sx::note("statement", text);
    run r(text, [&](auto& c) {
        ah::set_var<int>(c, "A", a);
        ah::set_var<std::string>(c, "S", s);
        ah::set_var<std::string>(c, "T", t);
    });
    sx::check(r.a->diags().empty() == ok, "an error is reported exactly for an invalid argument");
    if (!ok)
    {
        sx::cover("invalid argument");
        return;
    }
    sx::cover(fn[f]);
    if (num)
    {
        auto v = r.var<int>("R");
        sx::check(v.has_value(), "the statement assigns its symbol");
        sx::check(*v == exp, "value of an arithmetic function");
        return;
    }
    auto o = r.var<std::string>("R");
    sx::check(o.has_value(), "the statement assigns its symbol");
    const std::string& v = *o;
    if (direct)
    {
        sx::check(v.size() == exps.size(), "value of a character function");
        bool eq = true;
        for (size_t i = 0; i < v.size(); ++i)
            eq = eq & (v[i] == exps[i]);
        sx::check(eq, "value of a character function");
        return;
    }
    auto bits = [&](uint64_t x, size_t w, size_t at) {
        bool eq = true;
        for (size_t i = 0; i < w; ++i)
            eq = eq & (v[at + i] == (char)('0' + ((x >> (w - 1 - i)) & 1)));
        return eq;
    };
    switch (f)
    {
        case A2B:
        case D2B:
            if (f == D2B && n == 0)
            {
                sx::check(v.empty(), "D2B of nothing is empty");
                break;
            }
            sx::check(v.size() == 32, "A2B gives 32 binary digits");
            sx::check(bits(f == A2B ? (uint32_t)a : (uint32_t)exp, 32, 0), "binary digits of a value");
            break;
        case A2X:
        case D2X: {
            uint32_t x = f == A2X ? (uint32_t)a : (uint32_t)exp;
            sx::check(v.size() == 8, "A2X gives 8 hexadecimal digits");
            bool eq = true;
            for (int i = 0; i < 8; ++i)
                eq = eq & (v[i] == hexc((x >> (28 - 4 * i)) & 15));
            sx::check(eq, "hexadecimal digits of a value");
            break;
        }
        case A2C:
        case D2C: {
            uint32_t x = f == A2C ? (uint32_t)a : (uint32_t)exp;
            check_chars(v, { x >> 24, (x >> 16) & 255, (x >> 8) & 255, x & 255 });
            break;
        }
        case BYTE:
            check_chars(v, { (unsigned)a & 255 });
            break;
        case A2D:
            sx::check(is_dec(v, a, true), "decimal form with a sign");
            break;
        case SIGNED:
            sx::check(is_dec(v, a, false), "decimal form");
            break;
        case B2D:
        case C2D:
        case X2D:
            sx::check(is_dec(v, exp, true), "decimal form with a sign");
            break;
        case B2X: {
            size_t p = (4 - n % 4) % 4;
            sx::check(v.size() == (n + p) / 4, "four binary digits per hexadecimal digit");
            bool eq = true;
            std::string q = std::string(p, '0') + s;
            for (size_t i = 0; i < v.size(); ++i)
                eq = eq & (v[i] == hexc(binv(q.substr(4 * i, 4))));
            sx::check(eq, "hexadecimal digits of a binary string");
            break;
        }
        case B2C: {
            size_t p = (8 - n % 8) % 8;
            std::string q = std::string(p, '0') + s;
            std::vector<unsigned> codes;
            for (size_t i = 0; i < q.size(); i += 8)
                codes.push_back(binv(q.substr(i, 8)));
            check_chars(v, codes);
            break;
        }
        case C2B: {
            sx::check(v.size() == 8 * n, "eight binary digits per character");
            bool eq = true;
            for (size_t i = 0; i < n; ++i)
                eq = eq & bits(ebc[(unsigned char)s[i]], 8, 8 * i);
            sx::check(eq, "binary digits of a character");
            break;
        }
        case C2X: {
            sx::check(v.size() == 2 * n, "two hexadecimal digits per character");
            bool eq = true;
            for (size_t i = 0; i < n; ++i)
            {
                unsigned c = ebc[(unsigned char)s[i]];
                eq = eq & (v[2 * i] == hexc(c >> 4)) & (v[2 * i + 1] == hexc(c & 15));
            }
            sx::check(eq, "hexadecimal digits of a character");
            break;
        }
        case X2B: {
            sx::check(v.size() == 4 * n, "four binary digits per hexadecimal digit");
            bool eq = true;
            for (size_t i = 0; i < n; ++i)
                eq = eq & bits(hexv(s[i]), 4, 4 * i);
            sx::check(eq, "binary digits of a hexadecimal string");
            break;
        }
        case X2C: {
            std::string q = (n % 2 ? "0" : "") + s;
            std::vector<unsigned> codes;
            for (size_t i = 0; i < q.size(); i += 2)
                codes.push_back(hexval(q.substr(i, 2)));
            check_chars(v, codes);
            break;
        }
    }
}
