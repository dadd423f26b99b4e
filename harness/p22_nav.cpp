// P22 (1): definitions and references of symbols are those of the program.
#include <set>

#include "asm.h"
#include "workspace_manager.h"
using namespace ah;

struct occ
{
    char kind; // O ordinary, V variable, S sequence, I instruction
    char where; // M in the macro, P in open code
    char name;
    size_t line, col, len; // with subscript
    bool def;
};
struct program
{
    std::string text;
    std::vector<occ> occs;
    size_t line = 0;
    // ~kn: symbol n of kind k; upper case K: defined here
    void add(const std::string& t, char where)
    {
        std::string l;
        std::vector<std::pair<size_t, size_t>> subs;
        size_t depth = 0;
        for (size_t i = 0; i < t.size(); ++i)
            if (t[i] == '~')
            {
                char k = t[i + 1], n = t[i + 2];
                bool def = k >= 'A' && k <= 'Z';
                k &= ~0x20;
                std::string s = k == 'V' ? "&" : k == 'S' ? "." : "";
                s += n;
                occs.push_back({ k, where, n, line, l.size(), s.size(), def });
                l += s;
                i += 2;
                if (k == 'V' && i + 1 < t.size() && t[i + 1] == '(')
                    subs.emplace_back(occs.size() - 1, depth + 1);
            }
            else
            {
                l += t[i];
                depth += t[i] == '(';
                if (t[i] != ')')
                    continue;
                if (!subs.empty() && subs.back().second == depth)
                {
                    occs[subs.back().first].len = l.size() - occs[subs.back().first].col;
                    subs.pop_back();
                }
                --depth;
            }
        text += l + "\n";
        ++line;
    }
    bool same(const occ& a, const occ& b) const
    {
        return a.kind == b.kind && a.name == b.name && (a.kind == 'O' || a.kind == 'I' || a.where == b.where);
    }
};
static std::string fill(std::string t)
{
    // ? is one of the two characters behind it
    for (size_t p; (p = t.find('?')) != t.npos;)
    {
        char c = sx::choose("symbol", 2) ? t[p + 1] : t[p + 2];
        t.replace(p, 3, 1, c);
    }
    return t;
}
struct consumer : diagnostics_consumer
{
    std::string codes;
    void consume_diagnostics(diagnostic_list l) override
    {
        codes.clear();
        for (size_t i = 0; i < l.diagnostics_size(); ++i)
            codes += std::string(l.diagnostics(i).code()) + "@" + std::to_string(l.diagnostics(i).get_range().start.line) + " ";
    }
};
#ifndef PART
#    define PART 1
#endif
static void lines(program& p)
{
#if PART == 1 // ordinary symbols
#    ifdef QUICK
    p.add("~OA EQU 1", 'P');
#    else
    p.add(fill("~O?AB EQU 1"), 'P');
#    endif
    p.add(fill("~O?BC DC A(~o?AB,L'~o?AC)"), 'P');
    p.add(fill(" LA 1,~o?AC-~o?AB(2)"), 'P');
    p.add(fill("~OD DS (~o?AB)CL(~oA)"), 'P');
#elif PART == 2 // variable symbols in both scopes
    p.add(" MACRO", 'M');
    p.add(fill("~V?LV ~IM ~VP,~VK=1"), 'M');
    p.add(" LCLA ~VV", 'M');
    p.add(fill("~V?VW SETA ~v?VP+~vK"), 'M');
    p.add(" MEND", 'M');
    p.add(" GBLC ~VW", 'P');
    p.add(fill("~V?XW SETC '~v?VW'"), 'P');
    p.add(fill(" ~iM ~v?VW,K=~vX"), 'P');
#elif PART == 3 // sequence symbols and macros
    p.add(" MACRO", 'M');
    p.add(" ~IM", 'M');
    p.add(fill(" AIF (0)~s?ST"), 'M');
    p.add(fill("~S?ST ANOP"), 'M');
    p.add(" MEND", 'M');
    p.add(fill(" AIF (0)~s?ST"), 'P');
    p.add(fill("~S?ST ~iM"), 'P');
    p.add(" MACRO", 'N');
    p.add(" ~IN", 'N');
    p.add(fill("~S?ST ANOP"), 'N');
    p.add(" MEND", 'N');
    p.add(fill(" ~i?MN"), 'P');
#elif PART == 4 // variable symbols in subscripts, strings, created symbols and model statements
    p.add(" LCLA ~VA(5),~VB", 'P');
    p.add(fill("~VA(~v?BC) SETA ~vA(~vB)+1"), 'P');
    p.add(fill("~VD SETC 'x~v?BC'(~vB,1).(~vB)'~vA(~v?BC)'"), 'P');
    p.add("&(E~vB) SETA ~vC", 'P');
    p.add(fill(" LA ~vC,~vA(~v?BD)"), 'P');
    p.add("~vB DC C'~vB'", 'P');
    p.add(" AIF ('~vD' EQ '1' AND ~vB EQ 1)~sS", 'P');
    p.add("~SS ANOP", 'P');
#endif
}

extern "C" void sx_setup()
{
    program p;
    setup({ " MACRO\n&L M &P,&K=1\n AIF (0).A\n.A ANOP\n&A SETA &P+1\n MEND\n M 1\nA EQU 1\n LA 1,A-A(2)\n DC A(A,L'A),CL(A)'A'\n GBLA &A\n LCLC &B\n&B SETC '&A'\n M &A,K=&B\n" });
    workspace_manager m;
    m.did_open_file("/nonexistent/f", 1, "A EQU 1\n", 8);
}
extern "C" void sx_main()
{
    program p;
    lines(p);
    sx::note("text", p.text);
    workspace_manager m;
    consumer c;
    m.register_diagnostics_consumer(&c);
    m.did_open_file("/nonexistent/f", 1, p.text.c_str(), p.text.size());
    sx::note("codes", c.codes);
    position pos { sx::any<unsigned>("line"), sx::any<unsigned>("column") };
    auto at = [](const position& q) { return std::to_string(q.line) + ":" + std::to_string(q.column); };
    auto d = m.definition("/nonexistent/f", pos);
    auto r = m.references("/nonexistent/f", pos);
    std::vector<const occ*> hit;
    for (auto& o : p.occs)
        if (o.line == pos.line && o.col <= pos.column && pos.column <= o.col + o.len)
        {
            if (!hit.empty() && o.col + o.len <= hit[0]->col + hit[0]->len)
                hit.clear(); // in a subscript
            hit.push_back(&o);
        }
    std::set<std::pair<size_t, size_t>> got, want;
    for (size_t i = 0; i < r.size(); ++i)
    {
        sx::check(std::string(r.item(i).file()) == "/nonexistent/f", "references are in the file");
        got.emplace(r.item(i).pos().line, r.item(i).pos().column);
    }
    for (auto& x : got)
        sx::note("ref", std::to_string(x.first) + ":" + std::to_string(x.second));
    sx::check(std::string(d.file()) == "/nonexistent/f", "the definition is in the file");
    if (hit.empty())
    {
        sx::cover("no symbol");
        // names of instructions are not symbols of the program, but have references
        sx::check(d.pos().line == pos.line && d.pos().column == pos.column, "no definition where there is no symbol");
        return;
    }
    if (hit[0]->kind == 'V' && pos.column > hit[0]->col + 2)
        return; // a subscript may count as part of the symbol
    sx::note("position", at(pos) + " " + std::string(1, hit[0]->kind) + hit[0]->name);
    const occ* def = nullptr;
    for (auto& o : p.occs)
        if (p.same(o, *hit[0]))
        {
            want.emplace(o.line, o.col);
            if (!def && o.def)
                def = &o;
        }
    sx::note("definition", at(d.pos()));
    sx::check(got == want, "the references are all occurrences of the symbol");
    if (def)
        sx::check(d.pos().line == def->line && d.pos().column == def->col, "the definition is where the symbol is defined");
    else
        sx::check(d.pos().line == pos.line && d.pos().column == pos.column, "no definition of undefined symbols");
    sx::cover(def ? "defined" : "undefined");
}
