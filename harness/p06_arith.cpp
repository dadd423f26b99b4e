// P06: conditional-assembly arithmetic. The operands are variable symbols with arbitrary 32-bit values.
// Oracle: 64-bit arithmetic; a result that does not fit is reported and counts as 0; division by 0 gives 0.
#include "asm.h"
#include <climits>
using ah::run;

static const char* texts[] = { "&R SETA &A+&B\n", "&R SETA (&A SLA &B)\n", "&R SETA -(&A)\n", "&R SETA (NOT &A)\n", "&R SETA &A*(&B-&C)\n",
    "&R SETA (&A SLA &B AND &C)\n" };
extern "C" void sx_setup()
{
    std::vector<std::string> w;
    for (auto* t : texts)
        w.push_back(std::string("&A SETA 1\n&B SETA 1\n&C SETA 1\n") + t);
    ah::setup(w);
}
static bool ovf;
static int64_t fit(int64_t v)
{
    if (v > INT_MAX || v < INT_MIN)
    {
        ovf = true;
        return 0;
    }
    return v;
}
static int64_t ar(unsigned op, int64_t a, int64_t b)
{
    switch (op)
    {
        case 0: return fit(a + b);
        case 1: return fit(a - b);
        case 2: return fit(a * b);
        default:
            if (b == 0)
                return 0;
            return fit(a / b);
    }
}
// word operators; shift counts are taken modulo 64
static int32_t wd(unsigned op, int32_t a, int32_t b)
{
    unsigned n = (unsigned)b & 63;
    uint32_t u = (uint32_t)a;
    switch (op)
    {
        case 0: return a & b;
        case 1: return a | b;
        case 2: return a ^ b;
        case 3: // SLA: the sign is kept
            return (int32_t)((n > 31 ? 0 : (u << n) & 0x7fffffffu) | (u & 0x80000000u));
        case 4: return n > 31 ? 0 : (int32_t)(u << n);
        case 5: return n > 31 ? (a < 0 ? -1 : 0) : a >> n;
        default: return n > 31 ? 0 : (int32_t)(u >> n);
    }
}
static const char* wn[] = { "AND", "OR", "XOR", "SLA", "SLL", "SRA", "SRL" };
static int wp(unsigned op) { return op < 3 ? 2 : 3; }

extern "C" void sx_main()
{
    int32_t a = sx::any<int32_t>("a"), b = sx::any<int32_t>("b"), c = 0;
    int64_t exp = 0;
    std::string e;
    ovf = false;
    static const char* an = "+-*/";
    unsigned form = sx::choose("form", 9);
    auto need_c = [&] { c = sx::any<int32_t>("c"); };
    switch (form)
    {
        case 0: {
            unsigned o = sx::choose("op", 4);
            e = std::string("&A") + an[o] + "&B";
            exp = ar(o, a, b);
            if (ovf)
                sx::cover("overflow");
            break;
        }
        case 1: // priorities of + - * /
        case 2: {
            need_c();
            unsigned o = sx::choose("op", 4), p = sx::choose("op2", 4);
            // solver cost: * and / inside a longer expression take operands of 8 bits
            if (o >= 2 && p >= 2)
            {
                a = (a & 7) - 4;
                b = (b & 7) - 4;
                c = (c & 7) - 4;
            }
            else if (o >= 2 || p >= 2)
            {
                a = (int8_t)a;
                b = (int8_t)b;
                c = (int8_t)c;
            }
            if (form == 1)
            {
                e = std::string("&A") + an[o] + "&B" + an[p] + "&C";
                if (o < 2 && p >= 2)
                {
                    int64_t t = ar(p, b, c);
                    exp = ar(o, a, t);
                    sx::cover("priority");
                }
                else
                {
                    int64_t t = ar(o, a, b);
                    exp = ar(p, t, c);
                }
            }
            else
            {
                e = std::string("&A") + an[o] + "(&B" + an[p] + "&C)";
                int64_t t = ar(p, b, c);
                exp = ar(o, a, t);
            }
            break;
        }
        case 3:
            e = "-&A";
            exp = fit(-(int64_t)a);
            break;
        case 4:
            e = "+&A-&B";
            exp = ar(1, a, b);
            break;
        case 5:
            e = "(NOT &A)";
            exp = ~a;
            break;
        case 6: {
            unsigned o = sx::choose("op", 7);
            e = std::string("(&A ") + wn[o] + " &B)";
            exp = wd(o, a, b);
            if (o > 2)
                sx::cover("shift");
            break;
        }
        case 7: { // priorities of word operators
            need_c();
            unsigned o = sx::choose("op", 7), p = sx::choose("op2", 7);
            e = std::string("(&A ") + wn[o] + " &B " + wn[p] + " &C)";
            if (wp(p) < wp(o))
                exp = wd(o, a, wd(p, b, c));
            else
                exp = wd(p, wd(o, a, b), c);
            break;
        }
        case 8: { // arithmetic operands of word operators
            unsigned o = sx::choose("op", 7);
            e = std::string("(&A+1 ") + wn[o] + " (NOT &B))";
            exp = wd(o, (int32_t)fit((int64_t)a + 1), ~b);
            break;
        }
    }
    sx::note("expr", e);
    run r("&R SETA " + e + "\n", [&](auto& ctx) {
        ah::set_var<int>(ctx, "A", a);
        ah::set_var<int>(ctx, "B", b);
        ah::set_var<int>(ctx, "C", c);
    });
    auto v = r.var<int>("R");
    sx::check(v.has_value(), "the SETA statement assigns its symbol");
    sx::check((r.errors() != 0) == ovf, "exactly the results that do not fit are reported");
    if (!ovf)
        sx::check(*v == (int32_t)exp, "value of the expression");
    else
        sx::check(*v == 0 || form != 0, "an overflowed result counts as 0");
}
