// P07: conditional-assembly comparisons and logical expressions.
// Oracle: integers compare as integers; strings by length, then by EBCDIC code; NOT > AND > OR > XOR.
#include "asm.h"
#include <climits>
using ah::run;
#ifndef SL
#define SL 2 // bytes per compared string
#endif

static unsigned char rank_[256]; // 0: no known place
static unsigned ebc(char c) { return rank_[(unsigned char)c]; }

extern "C" void sx_setup()
{
    static const char order[] = " .<(+&*);-/,%_>?:#@'=\"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
    for (unsigned i = 0; order[i]; ++i)
        rank_[(unsigned char)order[i]] = (unsigned char)(i + 1);
    ah::setup({ "&A SETA 1\n&B SETA 1\n&R SETB (&A EQ &B)\n", "&A SETC 'A'\n&R SETB ('&A' EQ 'B')\n",
        "&P SETB 1\n&Q SETB 1\n&R SETB (&P AND NOT &Q OR &P)\n", "&P SETB 1\n&Q SETB 1\n&R SETB (NOT &P XOR NOT (&Q AND &P))\n",
        "&P SETB 1\n&A SETA 1\n&R SETB (&A EQ 1 AND &P OR 3 LT 4)\n" });
}
// code page 037-like table of the repository's documentation is not assumed; only facts that hold in every EBCDIC
// code page with invariant characters: blank < specials(.<(+&*);-/,%_>?:#@'=") < a-z < A-Z < 0-9, letters in their three ranges
static const char* rel[] = { "EQ", "NE", "LT", "GT", "LE", "GE" };
template<class T>
static bool cmp(unsigned op, T a, T b)
{
    switch (op)
    {
        case 0: return a == b;
        case 1: return a != b;
        case 2: return a < b;
        case 3: return a > b;
        case 4: return a <= b;
        default: return a >= b;
    }
}
static const char* lop[] = { "AND", "OR", "XOR", "AND NOT", "OR NOT", "XOR NOT" };
static bool lg(unsigned op, bool a, bool b)
{
    switch (op)
    {
        case 0: return a & b;
        case 1: return a | b;
        case 2: return a ^ b;
        case 3: return a & !b;
        case 4: return a | !b;
        default: return a ^ !b;
    }
}
static int pr(unsigned op) { return op % 3; } // AND, OR, XOR

extern "C" void sx_main()
{
    unsigned form = sx::choose("form", 8);
    std::string e;
    bool exp = false;
    std::function<void(ah::hc::hlasm_context&)> pre;
    if (form == 0 || form == 1)
    {
        int32_t a = sx::any<int32_t>("a"), b = sx::any<int32_t>("b");
        unsigned o = sx::choose("op", 6);
        e = std::string("&A ") + rel[o] + " &B";
        exp = cmp(o, a, b);
        if (form == 1)
        {
            e = "NOT (" + e + ")";
            exp = !exp;
        }
        pre = [=](auto& c) {
            ah::set_var<int>(c, "A", a);
            ah::set_var<int>(c, "B", b);
        };
        sx::cover("integers");
    }
    else if (form == 2)
    {
        size_t n = sx::choose("n", SL + 1), m = sx::choose("m", SL + 1);
        std::string a = sx::str("a", n), b = sx::str("b", m);
        for (auto* s : { &a, &b })
            for (char c : *s)
                sx::assume(ebc(c) != 0);
        bool lt = n < m, eq = n == m;
        if (n == m)
            for (size_t i = 0; i < n; ++i)
            {
                unsigned x = ebc(a[i]), y = ebc(b[i]);
                lt = lt | (eq & (x < y));
                eq = eq & (x == y);
            }
        unsigned o = sx::choose("op", 6);
        e = std::string("'&A' ") + rel[o] + " '&B'";
        exp = cmp(o, (int)!eq - 2 * (int)(lt & !eq), 0);
        pre = [=](auto& c) {
            ah::set_var<std::string>(c, "A", a);
            ah::set_var<std::string>(c, "B", b);
        };
        sx::cover("strings");
    }
    else if (form == 3)
    {
        // strings with any bytes, NUL included: equality is equality of the characters
        std::string a = sx::str("a", 2), b = sx::str("b", 2);
        for (auto* s : { &a, &b })
            for (unsigned char c : *s)
                sx::assume(c < 0x80);
        unsigned o = sx::choose("op", 2);
        e = std::string("'&A' ") + rel[o] + " '&B'";
        exp = (a == b) == (o == 0);
        pre = [=](auto& c) {
            ah::set_var<std::string>(c, "A", a);
            ah::set_var<std::string>(c, "B", b);
        };
        sx::cover("any bytes");
    }
    else
    {
        bool p = sx::any<uint8_t>("p") & 1, q = sx::any<uint8_t>("q") & 1, t = sx::any<uint8_t>("t") & 1;
        pre = [=](auto& c) {
            ah::set_var<bool>(c, "P", p);
            ah::set_var<bool>(c, "Q", q);
            ah::set_var<bool>(c, "T", t);
        };
        unsigned o = sx::choose("op", 6), o2 = sx::choose("op2", 6);
        if (form == 4)
        {
            e = std::string("&P ") + lop[o] + " &Q " + lop[o2] + " &T";
            exp = pr(o2) < pr(o) ? lg(o, p, lg(o2, q, t)) : lg(o2, lg(o, p, q), t);
            sx::cover("priorities");
        }
        else if (form == 5)
        {
            e = std::string("&P ") + lop[o] + " (&Q " + lop[o2] + " &T)";
            exp = lg(o, p, lg(o2, q, t));
        }
        else if (form == 6)
        {
            e = std::string("NOT &P ") + lop[o] + " (NOT &Q " + lop[o2] + " &T)";
            exp = lg(o, !p, lg(o2, !q, t));
        }
        else
        {
            unsigned r1 = sx::choose("r1", 6);
            int k = (int)sx::choose("k", 3);
            e = std::string("2 ") + rel[r1] + " " + std::to_string(k + 1) + " " + lop[o] + " &Q " + lop[o2] + " &T";
            bool l = cmp(r1, 2, k + 1);
            exp = pr(o2) < pr(o) ? lg(o, l, lg(o2, q, t)) : lg(o2, lg(o, l, q), t);
        }
    }
    sx::note("expr", e);
    run r("&R SETB (" + e + ")\n", pre);
    auto v = r.var<bool>("R");
    sx::check(v.has_value(), "the SETB statement assigns its symbol");
    sx::check(r.a->diags().empty(), "no diagnostic for a valid logical expression");
    sx::check(*v == exp, form < 2 ? "integer comparison" : form < 4 ? "string comparison" : "logical expression");
}
