// P10: symbols defined by expressions over each other, in every order of definition.
// Oracle: recursive evaluation; a symbol that needs itself has no value, which is reported.
#include "asm.h"
using namespace ah;
static const char* N3[] = { "X", "Y", "Z" };
static const unsigned NF = 9;
static int xa, xb;
static unsigned form[3];
enum st
{
    OK,
    CYCLE,
    UNDEF
};
struct val
{
    st s;
    int v;
};
// X,Y,Z and the distance between P and Q, which is the value of Z bytes
static int depth[4];
static val ev(int i);
static val dist()
{
    return ev(2);
}
static val add(val l, val r) { return { l.s ? l.s : r.s, l.v + r.v }; }
static val ev0(int i)
{
    int n = (i + 1) % 3, p = (i + 2) % 3;
    switch (form[i])
    {
        case 0: return { OK, xa };
        case 1: return add(ev(n), { OK, xb });
        case 2: return add(ev(p), { OK, 3 });
        case 3: return add(ev(n), ev(p));
        case 4: return { UNDEF, 0 };
        case 5: return dist();
        case 6: {
            val v = ev(n);
            return { v.s, v.v * 2 };
        }
        case 7: return { OK, 5 };
        default: return { OK, 1 };
    }
}
static val ev(int i)
{
    if (depth[i])
        return { CYCLE, 0 };
    depth[i] = 1;
    val v = ev0(i);
    depth[i] = 0;
    return v;
}
static std::string text(int i)
{
    std::string n = N3[(i + 1) % 3], p = N3[(i + 2) % 3];
    switch (form[i])
    {
        case 0: return "XA";
        case 1: return n + "+XB";
        case 2: return "3+" + p;
        case 3: return n + "+" + p;
        case 4: return "U+1";
        case 5: return "Q-P";
        case 6: return "2*" + n;
        case 7: return "L'W";
        default: return "R-Q";
    }
}
static std::string prog(unsigned perm, unsigned where, unsigned wpos)
{
    static const int PERM[6][3] = { { 0, 1, 2 }, { 0, 2, 1 }, { 1, 0, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 } };
    std::string r = "S CSECT\n", w = "W DS CL5\n", pq = "P DS (Z)X\nQ DS X\nR DS X\n";
    if (wpos == 0)
        r += w;
    for (int k = 0; k < 3; ++k)
    {
        if (where == (unsigned)k)
            r += pq;
        int i = PERM[perm][k];
        r += std::string(N3[i]) + " EQU " + text(i) + "\n";
    }
    if (where == 3)
        r += pq;
    if (wpos)
        r += w;
    return r;
}
extern "C" void sx_setup()
{
    std::vector<std::string> w;
    for (unsigned f = 0; f < NF; ++f)
    {
        form[0] = form[1] = form[2] = f;
        w.push_back(prog(0, 0, 1));
    }
    setup(w);
}
extern "C" void sx_main()
{
    for (auto& f : form)
        f = sx::choose("form", NF);
    unsigned perm = sx::choose("perm", 6);
    unsigned where = sx::choose("where", 2) * 3;
    unsigned wpos = form[0] == 7 || form[1] == 7 || form[2] == 7 ? sx::choose("w", 2) : 0;
    std::string p = prog(perm, where, wpos);
    sx::note("program", p);
    xa = sx::byte_in("xa", 0, 100);
    xb = sx::byte_in("xb", 0, 100);
    run r(p, [](hc::hlasm_context& c) {
        c.ord_ctx.create_symbol(c.ids().add("XA"), hc::symbol_value(xa), hc::symbol_attributes::make_section_attrs(), {});
        c.ord_ctx.create_symbol(c.ids().add("XB"), hc::symbol_value(xb), hc::symbol_attributes::make_section_attrs(), {});
    });
    sx::note("codes", r.codes());
    bool cyc = false, undef = false;
    for (int i = 0; i < 3; ++i)
    {
        val v = ev(i);
        cyc = cyc || v.s == CYCLE;
        undef = undef || v.s == UNDEF;
        if (v.s != OK)
            continue;
        auto g = r.abs(N3[i]);
        sx::check(g.has_value(), "a symbol that can be evaluated is absolute");
        if (g)
            sx::check(*g == v.v, "value of a symbol whatever the order of definitions");
    }
    if (cyc)
    {
        sx::check(r.has("E033"), "a cycle is reported");
        sx::cover("cycle");
    }
    if (undef)
        sx::cover("undefined");
    if (!cyc && !undef)
    {
        sx::check(r.errors() == 0, "a program without cycle is not reported");
        auto pp = r.reloc("P"), q = r.reloc("Q");
        sx::check(pp && q, "labels are relocatable");
        if (pp && q)
            sx::check(*q - *pp == ev(2).v, "length defined by a symbol");
        sx::cover("values");
    }
    else
        sx::check(r.errors() > 0, "what cannot be evaluated is reported");
}
