// P17: conditional assembly control flow: AIF, AGO, computed AGO, sequence symbols, ACTR, MEXIT.
#include "asm.h"
using namespace ah;
#ifndef NL
#    define NL 3
#endif
// line k:  .Lk ANOP / trace k / X = X + 1 / branch
enum kind { NONE, AIF1, AGO1, AGON, AIF2, EXIT, KINDS };
struct line
{
    kind k;
    unsigned t, u; // targets: 0..NL-1 lines, NL the line behind them, NL+1 undefined
};
static std::string label(unsigned t) { return ".L" + std::to_string(t); }
static std::string text_of(const std::vector<line>& p, bool defs)
{
    std::string s;
    for (unsigned k = 0; k < p.size(); ++k)
    {
        s += (defs ? label(k) : std::string()) + " ANOP\n&T SETC '&T." + std::to_string(k) + "'\n&X SETA &X+1\n";
        switch (p[k].k)
        {
            case AIF1: s += " AIF (&X EQ &V)" + label(p[k].t) + "\n"; break;
            case AGO1: s += " AGO " + label(p[k].t) + "\n"; break;
            case AGON: s += " AGO (&V)" + label(p[k].t) + "," + label(p[k].u) + "\n"; break;
            case AIF2: s += " AIF (&X GT &V)" + label(p[k].t) + ",(&X EQ &W)" + label(p[k].u) + "\n"; break;
            case EXIT: s += " AIF (&X EQ &W)" + label(p.size()) + "\n MEXIT\n"; break;
            default: break;
        }
    }
    return s + label(p.size()) + " ANOP\n&T SETC '&T.E'\n";
}
static std::string program(const std::vector<line>& p, bool macro)
{
    if (macro)
        return " MACRO\n M\n GBLA &V,&W,&X,&A\n GBLC &T\n ACTR &A\n" + text_of(p, true) + " MEND\n GBLC &T\n M\n&T SETC '&T.R'\n M\n&T SETC '&T.R'\n";
    return " GBLC &T\n ACTR &A\n" + text_of(p, true);
}
struct model
{
    int v, w, x, a;
    std::string t;
    unsigned undefined = 0;
    bool stopped = false; // a branch exceeded the counter
    void go(const std::vector<line>& p)
    {
        int c = a;
        for (unsigned k = 0; k <= p.size();)
        {
            if (k == p.size())
            {
                t += "E";
                return;
            }
            t += char('0' + k);
            ++x;
            unsigned to = ~0u;
            switch (p[k].k)
            {
                case AIF1: if (x == v) to = p[k].t; break;
                case AGO1: to = p[k].t; break;
                case AGON:
                    if (v == 1) to = p[k].t;
                    else if (v == 2) to = p[k].u;
                    break;
                case AIF2:
                    if (x > v) to = p[k].t;
                    else if (x == w) to = p[k].u;
                    break;
                case EXIT:
                    if (x == w) to = p.size();
                    else return;
                    break;
                default: break;
            }
            if (to == ~0u)
                ++k;
            else if (to > p.size())
            {
                ++undefined;
                ++k;
            }
            else
            {
                if (c-- <= 0)
                {
                    stopped = true;
                    return;
                }
                k = to;
            }
        }
    }
};
static unsigned distinct(const run& r, const char* code)
{
    unsigned n = 0;
    for (auto& d : r.a->diags())
        n += d.code == code;
    return n;
}
extern "C" void sx_setup()
{
    std::vector<line> p = { { AIF1, 2, 0 }, { AGON, 2, 1 }, { AIF2, NL, 1 }, { AGO1, NL, 0 } };
    setup({ program(p, false), program(p, true), program({ { EXIT, 0, 0 } }, true), "&X SETA 1\n AIF (&X EQ 1).A,(&X EQ 2).B\n.A ANOP\n.B ANOP\n" });
}
static int any_int(const char* name)
{
    int v = sx::any<int>(name);
    if (v >= 1 && v < VMAX)
        return (int)__sx_fix(v);
    return v; // any other value
}
extern "C" void sx_main()
{
    bool macro = sx::choose("macro", 2);
    std::vector<line> p;
    for (unsigned k = 0; k < NL; ++k)
    {
        line l {};
        l.k = kind(sx::choose("kind", macro ? KINDS : EXIT));
        if (l.k == AIF1 || l.k == AGO1)
            l.t = sx::choose("target", NL + 2);
        else if (l.k == AGON || l.k == AIF2)
        {
            // two targets: any first one, the second follows in a circle
            l.t = sx::choose("target", NL + 1);
            l.u = (l.t + 1 + k % 2) % (NL + 2);
        }
        p.push_back(l);
    }
    model m;
    bool uses_v = false, uses_w = false;
    for (auto& l : p)
    {
        uses_v |= l.k == AIF1 || l.k == AGON || l.k == AIF2;
        uses_w |= l.k == AIF2 || l.k == EXIT;
    }
    m.v = uses_v ? any_int("v") : 0;
    m.w = uses_w ? any_int("w") : 0;
    m.x = 0;
    m.a = ACTR_MIN + sx::choose("actr", ACTR_N);
    run r(program(p, macro), [&](hc::hlasm_context& c) {
        for (auto [n, v] : { std::pair("V", m.v), std::pair("W", m.w), std::pair("A", m.a), std::pair("X", m.x) })
            c.create_global_variable<hc::A_t>(c.ids().add(n), true)->access_set_symbol<hc::A_t>()->set_value(v);
    });
    unsigned calls = macro ? 2 : 1, stops = 0;
    for (unsigned c = 0; c < calls; ++c)
    {
        m.stopped = false;
        m.go(p);
        stops += m.stopped;
        if (macro)
            m.t += "R";
    }
    sx::note("codes", r.codes());
    sx::note("trace", r.var<hc::C_t>("T").value_or("?"));
    sx::note("expected", m.t);
    sx::check(r.var<hc::C_t>("T") == m.t, "statements processed, in order");
    sx::check(distinct(r, "E056") + distinct(r, "E055") == stops, "exceeding the number of branches is reported");
    sx::check((distinct(r, "E047") != 0) == (m.undefined != 0), "undefined sequence symbols are reported");
    sx::check(r.errors() == r.count("E056") + r.count("E055") + r.count("E047"), "nothing else is reported");
    sx::cover(stops ? "stopped" : macro ? "macro" : "open code");
    if (m.undefined)
        sx::cover("undefined");
}
