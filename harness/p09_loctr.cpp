// P09: values of location-counter symbols. P10 (LATE=1): the same programs with the symbols of the lengths and
// displacements defined at the end. Oracle: every location counter simulated on its own, in the order of the section.
#include "asm.h"
using namespace ah;
#ifndef LATE
#    define LATE 0
#endif
#ifndef KS
#    define KS 3
#endif
#ifndef BITS
#    define BITS 15
#endif
enum op
{
    DS_A,
    DS_F,
    DS_D,
    DC_X3,
    LR,
    ORG_L0,
    ORG_,
    ORG_BACK,
    ORG_AL,
    S2,
    S1,
    LOC,
    EQU_,
    ORG_L0AL,
    DS_AH,
    ORG_AVAL,
    DSEC,
    NOPS
};
static const char* TXT[] = { "@ DS (A)X", "@ DS F", "@ DS 0D", "@ DC XL3'1'", "@ LR 1,2", " ORG L0+XB", " ORG", " ORG *-XB", " ORG *,8",
    "S2 CSECT", "S1 CSECT", "C LOCTR", "@ EQU *+B", " ORG L0+XB,4,1", "@ DS (B)H", " ORG ,8", "D DSECT" };
static bool labelled(int o) { return TXT[o][0] == '@'; }
static int a, b;
static int up(int v, int n) { return (v + n - 1) / n * n; }
static int mx(int x, int y) { return x > y ? x : y; }

// location counters: 0 first of S1, 1 of S2, 2 C, 3 of D; C belongs to the section it was first named in
struct sim
{
    const int* ops;
    int n;
    int val[KS + 2], sect[KS + 2];
    bool underflow = false, under_other = false, foreign = false;
    int csect = -1; // section of C
    // runs the statements of location counter lc that starts at base; returns its length
    int one(int lc, int base)
    {
        int cur = base, high = base, cs = 0, active[3] = { 0, 1, 3 }; // current section, active counter of each section
        csect = -1;
        auto here = [&] { return active[cs] == lc; };
        auto put = [&](int i, int al, int len) {
            if (!here())
                return;
            cur = up(cur, al);
            val[i] = cur;
            sect[i] = cs;
            cur += len;
            high = mx(high, cur);
        };
        put(0, 1, 4); // L0
        for (int i = 0; i <= n; ++i)
        {
            int t = i < n ? ops[i] : (int)DC_X3;
            switch (t)
            {
                case DS_A: put(i + 1, 1, a); break;
                case DS_F: put(i + 1, 4, 4); break;
                case DS_D: put(i + 1, 8, 0); break;
                case DC_X3: put(i + 1, 1, 3); break;
                case LR: put(i + 1, 2, 2); break;
                case DS_AH: put(i + 1, 2, 2 * b); break;
                case EQU_:
                    if (here())
                        val[i + 1] = cur + b, sect[i + 1] = cs;
                    break;
                case S1: cs = 0; break;
                case S2: cs = 1; break;
                case DSEC: cs = 2; break;
                case LOC:
                    if (csect < 0)
                        csect = cs;
                    cs = csect;
                    active[cs] = 2;
                    break;
                default:
                    if (!here())
                        break;
                    if (t == ORG_L0 || t == ORG_L0AL)
                    {
                        if (lc != 0)
                        {
                            foreign = true;
                            break;
                        }
                        cur = b;
                        if (t == ORG_L0AL)
                            cur = up(cur, 4) + 1;
                    }
                    else if (t == ORG_)
                        cur = high;
                    else if (t == ORG_BACK)
                    {
                        underflow = underflow | (cur - b < base);
                        under_other = under_other || lc == 2;
                        cur = cur - b;
                    }
                    else if (t == ORG_AL)
                        cur = up(cur, 8);
                    else
                        cur = up(high, 8);
                    high = mx(high, cur);
            }
        }
        return high;
    }
    void all()
    {
        int e[4];
        for (int lc : { 0, 1, 3 })
            e[lc] = one(lc, 0);
        if (csect >= 0)
            one(2, csect == 2 ? e[3] : e[csect]);
    }
};
static std::string DA = "A EQU XA\n", DB = "B EQU XB\n", DEFS = DA + DB;
extern "C" void sx_setup()
{
    std::string p;
    for (int i = 0; i < NOPS; ++i)
    {
        std::string t = TXT[i];
        if (t[0] == '@')
            t = "L" + std::to_string(i + 1) + t.substr(1);
        p += t + "\n";
    }
    setup({ "S1 CSECT\nL0 DS XL4\n" + p + DEFS + "XA EQU 1\nXB EQU 1\n", DEFS + "S1 CSECT\nL0 DS XL4\n" + p + "XA EQU 1\nXB EQU 1\n" });
}
extern "C" void sx_main()
{
    int ops[KS];
    std::string p;
    for (int i = 0; i < KS; ++i)
    {
#ifdef MENU
        static const int M[] = { MENU };
        ops[i] = M[sx::choose("op", sizeof(M) / sizeof(*M))];
#else
        ops[i] = sx::choose("op", NOPS);
#endif
        std::string t = TXT[ops[i]];
        if (t[0] == '@')
            t = "L" + std::to_string(i + 1) + t.substr(1);
        p += t + "\n";
    }
    p = "S1 CSECT\nL0 DS XL4\n" + p + "L" + std::to_string(KS + 1) + " DC XL3'1'\n";
    // what ORG refers to is defined before it
    p = !LATE ? DEFS + p : sx::choose("order", 2) ? p + DB + DA : p + DEFS;
    sx::note("program", p);
    a = sx::byte_in("A", 0, BITS);
    b = sx::byte_in("B", 0, BITS);
    sim s { ops, KS };
    s.all();
    run r(p, [](hc::hlasm_context& c) {
        c.ord_ctx.create_symbol(c.ids().add("XA"), hc::symbol_value(a), hc::symbol_attributes::make_section_attrs(), {});
        c.ord_ctx.create_symbol(c.ids().add("XB"), hc::symbol_value(b), hc::symbol_attributes::make_section_attrs(), {});
    });
    sx::note("codes", r.codes());
    if (s.underflow || s.foreign)
    {
        // a place that depends on lengths not known yet may be reported or not
        if (LATE || s.under_other)
            return;
        sx::check(r.has("E068"), "a location outside of the location counter is reported");
        sx::cover(s.foreign ? "other location counter" : "before the beginning");
        return;
    }
    sx::check(r.errors() == 0, "a valid program is not reported");
    static const char* SN[] = { "S1", "S2", "D" };
    for (int i = 0; i < KS + 2; ++i)
    {
        if (i > 0 && i <= KS && !labelled(ops[i - 1]))
            continue;
        auto v = r.sym("L" + std::to_string(i));
        sx::check(v && v->value_kind() == hc::symbol_value_kind::RELOC, "a label is relocatable");
        if (!v || v->value_kind() != hc::symbol_value_kind::RELOC)
            return;
        sx::check(v->get_reloc().offset() == s.val[i], "location of a label");
        sx::check(v->get_reloc().is_simple() && *v->get_reloc().bases()[0].first.owner->name == SN[s.sect[i]], "section of a label");
    }
    sx::cover("values");
}
