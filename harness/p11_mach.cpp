// P11: machine expressions: absolute arithmetic, relocatability and addressing of every combination of terms.
#include "asm.h"
using namespace ah;

// terms: absolute symbols of any value, locations of two sections, a number
struct term
{
    const char* name;
    int sect; // 0: absolute
};
static const term T[] = { { "A", 0 }, { "B", 0 }, { "R1", 1 }, { "R2", 1 }, { "Q", 2 }, { "7", 0 } };
#ifdef LATE // P10: the lengths between the locations are defined behind the expression
static const std::string PROG = "S1 CSECT\n DS (N)X\nR1 DS (M)X\nR2 DS X\nS2 CSECT\n DS (M)X\nQ DS X\n", REST = "Y EQU X+1\nM EQU MV\nN EQU NV\n";
static int ROFF[] = { 0, 0, 0, 0, 0, 7 };
static int nv, mv;
static const unsigned NO = 2;
#else
static const unsigned NO = 4;
static const std::string REST = "Y EQU X+1\n";
static const std::string PROG = "S1 CSECT\n DS XL4\nR1 DS XL8\nR2 DS X\nS2 CSECT\n DS XL2\nQ DS X\n";
static const int ROFF[] = { 0, 0, 4, 12, 2, 7 };
#endif

struct val
{
    bool ok = true; // defined
    int64_t v = 0;
    int b[3] = {}; // coefficients of the sections
};
static bool isabs(const val& x) { return !x.b[1] && !x.b[2]; }
static val bin(char op, val l, val r, bool& bad, bool& range)
{
    val x;
    x.ok = l.ok && r.ok;
    switch (op)
    {
        case '+':
        case '-':
            for (int i = 1; i < 3; ++i)
                x.b[i] = op == '+' ? l.b[i] + r.b[i] : l.b[i] - r.b[i];
            x.v = op == '+' ? l.v + r.v : l.v - r.v;
            break;
        default:
            if (!isabs(l) || !isabs(r))
            {
                bad = true;
                x.ok = false;
                return x;
            }
            if (op == '*')
                x.v = l.v * r.v;
            else
                x.v = r.v == 0 ? 0 : l.v / (r.v == 0 ? 1 : r.v);
    }
    range = range | (x.v > 2147483647ll) | (x.v < -2147483648ll);
    x.v = (int32_t)x.v;
    return x;
}
static int a, b;
static val leaf(unsigned t)
{
    val x;
    if (T[t].sect)
        x.b[T[t].sect] = 1;
    x.v = t == 0 ? a : t == 1 ? b : ROFF[t];
    return x;
}
static int prio(char c) { return c == '*' || c == '/'; }
static void judge(const std::string& expr, const val& want, bool bad, bool range)
{
    sx::note("expr", expr);
    run r(PROG + "X EQU " + expr + "\n" + REST, [](hc::hlasm_context& c) {
#ifdef LATE
        c.ord_ctx.create_symbol(c.ids().add("NV"), hc::symbol_value(nv), hc::symbol_attributes::make_section_attrs(), {});
        c.ord_ctx.create_symbol(c.ids().add("MV"), hc::symbol_value(mv), hc::symbol_attributes::make_section_attrs(), {});
#endif
        c.ord_ctx.create_symbol(c.ids().add("A"), hc::symbol_value(a), hc::symbol_attributes::make_section_attrs(), {});
        c.ord_ctx.create_symbol(c.ids().add("B"), hc::symbol_value(b), hc::symbol_attributes::make_section_attrs(), {});
    });
    if (range)
        return; // what does not fit is outside; it must not crash
    auto v = r.sym("X");
    if (bad)
    {
        sx::cover("not absolute");
        return;
    }
    auto y = r.sym("Y");
    sx::check(r.errors() == 0, "a valid expression is not reported");
    sx::check(v.has_value(), "the symbol is defined");
    if (!v)
        return;
    if (isabs(want))
    {
        sx::check(v->value_kind() == hc::symbol_value_kind::ABS, "an expression whose sections cancel out is absolute");
        if (v->value_kind() == hc::symbol_value_kind::ABS)
        {
            sx::check(v->get_abs() == (int)want.v, "value of an absolute expression");
            sx::check(y && y->value_kind() == hc::symbol_value_kind::ABS && ((y->get_abs() == (int)want.v + 1) | (want.v == 2147483647)), "value of an expression that uses it");
        }
        sx::cover("absolute");
        return;
    }
    sx::check(v->value_kind() == hc::symbol_value_kind::RELOC, "an expression whose sections do not cancel out is relocatable");
    if (v->value_kind() != hc::symbol_value_kind::RELOC)
        return;
    const auto& ad = v->get_reloc();
    sx::check(ad.offset() == (int)want.v, "displacement of a relocatable expression");
    sx::check(y && y->value_kind() == hc::symbol_value_kind::RELOC && ((y->get_reloc().offset() == (int)want.v + 1) | (want.v == 2147483647)), "displacement of an expression that uses it");
    int got[3] = {};
    for (auto& [bs, n] : ad.bases())
        got[bs.owner->name && *bs.owner->name == "S1" ? 1 : 2] += n;
    sx::check(got[1] == want.b[1] && got[2] == want.b[2], "sections a relocatable expression refers to");
    bool simple = (want.b[1] == 1 && want.b[2] == 0) || (want.b[2] == 1 && want.b[1] == 0);
    sx::check(ad.is_simple() == simple, "simply relocatable");
    sx::cover(simple ? "relocatable" : "complex relocatable");
}
extern "C" void sx_setup()
{
    setup({ PROG + "X EQU A+B*7-(R1-R2)/A\nY EQU -(A-B)\nZ EQU -A+Q\nA EQU 1\nB EQU 2\n", PROG + "X EQU R1*A\nA EQU 1\n" });
}
// operands as wide as the solver can multiply and divide; n: number of * and /
static void operands(int n)
{
    if (n == 0)
    {
        a = sx::any<int>("a");
        b = sx::any<int>("b");
        sx::assume((a > -(1 << 28)) & (a < (1 << 28)) & (b > -(1 << 28)) & (b < (1 << 28)));
    }
    else
    {
        a = sx::any<int8_t>("a");
        b = sx::any<int8_t>("b");
        int m = n == 1 ? 128 : 8;
        sx::assume((a >= -m) & (a < m) & (b >= -m) & (b < m));
    }
}
extern "C" void sx_main()
{
#ifdef LATE
    nv = sx::byte_in("n", 0, 100);
    mv = sx::byte_in("m", 0, 100);
    ROFF[2] = nv;
    ROFF[3] = nv + mv;
    ROFF[4] = mv;
#endif
    unsigned form = sx::choose("form", 5);
    const char* OP = "+-*/";
    bool bad = false, range = false;
    unsigned t1 = sx::choose("t1", 6), t2 = sx::choose("t2", 6);
    char o1 = OP[sx::choose("o1", NO)];
    std::string s1 = T[t1].name, s2 = T[t2].name;
    if (form == 0) // two terms, every 32-bit value
    {
        a = sx::any<int>("a");
        b = sx::any<int>("b");
        if (o1 == '*')
            sx::assume((a >= -2048) & (a < 2048) & (b >= -2048) & (b < 2048));
        val w = bin(o1, leaf(t1), leaf(t2), bad, range);
        return judge(s1 + o1 + s2, w, bad, range);
    }
    if (form == 1) // unary
    {
        unsigned k = sx::choose("unary", 4);
        operands(prio(o1));
        val z, l = leaf(t1), m = leaf(t2), n1 = bin('-', z, l, bad, range), n2 = bin('-', z, m, bad, range);
        if (k == 0)
            return judge("-" + s1 + o1 + s2, bin(o1, n1, m, bad, range), bad, range);
        if (k == 1)
        {
            val w = bin(o1, l, m, bad, range);
            return judge("-(" + s1 + o1 + s2 + ")", bin('-', z, w, bad, range), bad, range);
        }
        if (k == 2)
            return judge("+" + s1 + o1 + s2, bin(o1, l, m, bad, range), bad, range);
        return judge(s1 + o1 + "(-" + s2 + ")", bin(o1, l, n2, bad, range), bad, range);
    }
    if (t1 == 5 || t2 == 5)
        __sx_end_path();
    unsigned t3 = sx::choose("t3", 5);
    char o2 = OP[sx::choose("o2", NO)];
    std::string s3 = T[t3].name;
    if (form < 4)
    {
        operands(prio(o1) + prio(o2));
        val l = leaf(t1), m = leaf(t2), n = leaf(t3), w;
        if (form == 2)
        {
            if (prio(o2) && !prio(o1))
                w = bin(o2, m, n, bad, range), w = bad ? w : bin(o1, l, w, bad, range);
            else
                w = bin(o1, l, m, bad, range), w = bad ? w : bin(o2, w, n, bad, range);
            return judge(s1 + o1 + s2 + o2 + s3, w, bad, range);
        }
        w = bin(o2, m, n, bad, range);
        w = bad ? w : bin(o1, l, w, bad, range);
        return judge(s1 + o1 + "(" + s2 + o2 + s3 + ")", w, bad, range);
    }
    // four terms with + and - only: pairs of sections
    if (prio(o1) || prio(o2))
        __sx_end_path();
    static const unsigned Q4[] = { 0, 2, 4 };
    unsigned t4 = Q4[sx::choose("t4", 3)];
    char o3 = OP[sx::choose("o3", 2)];
    bool par = sx::choose("par", 2);
    operands(0);
    val l = leaf(t1), m = leaf(t2), n = leaf(t3), k = leaf(t4), w;
    if (par)
        w = bin(o2, bin(o1, l, m, bad, range), bin(o3, n, k, bad, range), bad, range);
    else
        w = bin(o3, bin(o2, bin(o1, l, m, bad, range), n, bad, range), k, bad, range);
    return judge(par ? "(" + s1 + o1 + s2 + ")" + o2 + "(" + s3 + o3 + T[t4].name + ")" : s1 + o1 + s2 + o2 + s3 + o3 + T[t4].name, w, bad, range);
}
