// P23: a symbol is defined once, by its first definition; every other one is reported.
#include <map>
#include <set>

#include "asm.h"
using namespace ah;
#ifndef NS
#    define NS 2
#endif
struct kind
{
    const char* text; // @ the symbol defined, % a symbol used
    char cont; // kinds of sections and counters that a second statement continues
};
static const kind kinds[] = {
    { "@ EQU &V", 0 },
    { "@ EQU %", 0 },
    { "@ EQU *", 0 },
    { "@ EQU L'%", 0 },
    { "@ DC F'1'", 0 },
    { "@ DS CL(%)", 0 },
    { "@ DC FS(%)'1'", 0 },
    { "@ DC PL(%)S(%)'1'", 0 },
    { "@ DS (%)F", 0 },
    { "@ DC A(%)", 0 },
    { "@ LR 1,1", 0 },
    { "@ LA 1,%", 0 },
    { "@ CSECT", 'C' },
    { "@ DSECT", 'D' },
    { "@ COM", 'M' },
    { "@ LOCTR", 'L' },
    { "@ ORG *", 0 },
    { "@ ORG *+%-%", 0 },
    { " EXTRN @", 0 },
    { " EXTRN B,@", 0 },
};
static std::string subst(std::string t, char c, const std::string& v)
{
    for (size_t p; (p = t.find(c)) != t.npos;)
        t.replace(p, 1, v);
    return t;
}
extern "C" void sx_setup()
{
    std::vector<std::string> w;
    for (auto& k : kinds)
        w.push_back(subst(subst(k.text, '@', "A"), '%', "X") + "\nX EQU &W\n");
    setup(w);
}
extern "C" void sx_main()
{
    std::string text;
    struct def
    {
        size_t line;
        char cont;
        unsigned k;
        std::string used;
    };
    std::map<std::string, def> defs;
    std::set<size_t> want, got;
    for (size_t i = 0; i < NS; ++i)
    {
        unsigned k = sx::choose("kind", sizeof kinds / sizeof *kinds);
        std::string l = i == 0 ? "A" : sx::choose("name", 2) ? "B" : "A", u = "X";
        std::string t = kinds[k].text;
        if (t.find('%') != t.npos)
        {
            const char* us[] = { "X", "A", "B" };
            u = us[sx::choose("used", 3)];
        }
        text += subst(subst(t, '@', l), '%', u) + "\n";
        std::vector<std::string> names { l };
        if (t.find("B,@") != t.npos)
            names = { "B", l };
        for (auto& n : names)
        {
            auto d = defs.find(n);
            char c = kinds[k].cont;
            if (d == defs.end())
                defs[n] = { i, c, k, u };
            else if (!(c && (d->second.cont == c || (c == 'L' && d->second.cont))))
                want.insert(i);
        }
    }
    text += "X EQU &W\n";
    sx::note("text", text);
    int v = sx::byte_in("v", 0, 9), x = sx::byte_in("w", 1, 9);
    run r(text, [&](hc::hlasm_context& c) {
        set_var<int>(c, "V", v);
        set_var<int>(c, "W", x);
    });
    sx::note("codes", r.codes());
    for (auto& d : r.a->diags())
        if (d.code == "E031")
            got.insert(d.diag_range.start.line);
    sx::check(got == want, "exactly the second definitions are reported");
    for (auto& [n, d] : defs)
    {
        auto s = r.hctx().ord_ctx.get_symbol(r.id(n));
        sx::check(s != nullptr, "symbols are defined");
        sx::check(s->symbol_location.pos.line == d.line, "the first definition counts");
        if (d.k == 0)
            sx::check(s->kind() == hc::symbol_value_kind::ABS && s->value().get_abs() == v, "the value is the one of the first definition");
        if (d.k == 1 && d.used == "X")
            sx::check(s->kind() == hc::symbol_value_kind::ABS && s->value().get_abs() == x, "the value is the one of the first definition");
        if (d.k == 5 && d.used == "X")
            sx::check(s->attributes().length() == (unsigned)x, "the length is the one of the first definition");
        if (d.k == 6 && d.used == "X")
            sx::check(s->attributes().length() == 4 && s->attributes().scale() == x, "the attributes are those of the first definition");
        if (d.k == 4 || d.k == 9)
            sx::check(s->attributes().length() == 4, "the length is the one of the first definition");
    }
    sx::cover(want.empty() ? "once" : "twice");
}
