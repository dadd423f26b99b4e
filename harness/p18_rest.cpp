// P18 (2): whatever a line contains, the statements after it are analysed.
#include "asm.h"
using namespace ah;
#ifndef NC
#    define NC 3
#endif
static const std::vector<std::string> contexts = {
    "%\n",
    " %\n",
    "A %\n",
    "&A %\n",
    ".A %\n",
    " LR %\n",
    " DC %\n",
    " UNKNOWN %\n",
    "&A SETA %\n",
    "&A SETC %\n",
    "&A SETB %\n",
    " LCLA &A\n %\n",
    " AIF %\n",
    " GBLA %\n",
    " COPY %\n",
    " MNOTE %\n",
    " MACRO\n M &X\n MEND\n M %\n",
    " MACRO\n M &X\n%\n MEND\n M\n",
    " MACRO\n M %\n MEND\n M\n",
    " AGO .X\n%\n.X ANOP\n",
    " AGO .X\n %\n.X ANOP\n",
    " AGO .X\nA %\n.X ANOP\n",
    " AIF (L'Q EQ 1).X\n%\n.X ANOP\nQ DS C\n",
    " AIF (L'Q EQ 1).X\n.X ANOP\n %\nQ DS C\n",
};
extern "C" void sx_setup()
{
    std::vector<std::string> w;
    for (auto& c : contexts)
        for (const char* s : { "A", "1", "'", "&A", "(" })
        {
            auto t = c;
            t.replace(t.find('%'), 1, s);
            w.push_back(t + " LR 3\n");
        }
    setup(w);
}
extern "C" void sx_main()
{
    unsigned k = sx::choose("context", contexts.size());
    std::string c, t = contexts[k];
    for (unsigned i = 0; i < NC; ++i)
        c += sx::one_of("c", "A1&.()',=+*-/ ");
    t.replace(t.find('%'), 1, c);
    size_t last = std::count(t.begin(), t.end(), '\n');
    t += " LR 3\nEND EQU *\n";
    sx::note("text", t);
    run r(t, {});
    bool seen = false;
    for (auto& d : r.a->diags())
        seen |= d.code == "M000" && d.diag_range.start.line == last;
    sx::note("codes", r.codes());
    sx::check(seen, "the statement after the line is checked");
    sx::check(r.hctx().ord_ctx.get_symbol(r.id("END")) != nullptr, "symbols defined after the line are known");
    sx::cover("ran");
}
