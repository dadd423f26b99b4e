// P18: any program text is analysed to the end; reports and highlighting lie within the text.
#include "asm.h"
using namespace ah;
#ifndef NC
#    define NC 2
#endif
#ifndef ALPHABET
#    define ALPHABET "A1&.()',=+*-/L \n"
#endif
// % is replaced by the symbolic characters
static const std::string C72 = std::string(60, ' ');
static const std::vector<std::string> contexts = {
    "%",
    " %",
    "A% LR 1,1\n",
    " LR 1,%\n",
    " LA 1,2(%)\n",
    " LA %,A\nA DS F\n",
    " MVC A%,A\nA DS CL4\n",
    " DC %\n",
    " DC A(%)\n",
    " DC %X'1'\n",
    " DC CL(%)'A'\n",
    " DC C'%'\n",
    " DS 0%\n",
    "X EQU %\n",
    "X EQU 1,%\nA EQU 2\n",
    " ORG %\n",
    " USING %\n",
    "&A SETA %\n",
    "&A SETA (%)\n",
    "&A SETC '%'\n",
    "&A SETC 'ABC'(%)\n",
    "&A SETC 'A'.%\n",
    "&A SETB %\n",
    "&A SETB (%)\n",
    "&A(%) SETA 1\n",
    "&% SETA 1\n",
    "&(%) SETA 1\n",
    " LCLA &A%\n",
    " GBLC %\n",
    " AIF (%).A\n.A ANOP\n",
    " AIF %\n.A ANOP\n",
    " AGO .%\n.A ANOP\n",
    " AGO (%).A\n.A ANOP\n",
    " ACTR %\n",
    " MNOTE %\n",
    " MNOTE '%'\n",
    " COPY %\n",
    " MACRO\n M\n COPY %\n MEND\n",
    " AGO .A\n COPY %\n.A ANOP\n",
    " TITLE '%\n",
    " OPSYN %\nA OPSYN %\n",
    " EXTRN %\n",
    " ICTL %\n",
    "*PROCESS %\n",
    " END %\n",
    " CCW 1,%\n",
    " MACRO\n%\n MEND\n",
    " MACRO\n M %\n MEND\n M A\n",
    " MACRO\n M &A=%\n MEND\n M\n",
    " MACRO\n% M\n MEND\nA M\n",
    " MACRO\n M &A\n &A\n MEND\n M %\n",
    " MACRO\n M &A\n&B SETC '&A(%)'\n LR &SYSLIST(%)\n MEND\n M A\n",
    " MACRO\n M &A\n LR &A%\n MEND\n M 1\n",
    " MACRO\n M\n&B AREAD %\n MEND\n M\nX\n",
    " MACRO\n M &A\n MEND\n M &A%\n",
    " MACRO\n M &A\n AIF %\n MEND\n M 1\n",
    "&A SETC 'L'\n &A%R 1,2\n",
    "&A SETC '%'\n LR &A\n",
    "&A SETC '%'\n DC &A\n",
    "&A SETC '%'\n L&A 1,1\n",
    "&A SETC '%'\n&(&A) SETA 1\n",
    "&A SETC '%'\nX&A EQU 1\n",
    "&A SETC '%'\n M &A\n",
    " DC C'" + C72 + "     X\n%\n",
    " LR 1,                                                                X\n               %\n",
    " M A,                                                                 X\n              %B\n",
    " MACRO\n M &A,                                                          X\n               %&B\n MEND\n M 1\n",
    " AIF (1 EQ 2).A,                                                      X\n               (%).A\n.A ANOP\n",
    " DC A(L'%,T'%)\n",
    "&A SETA L'%\n",
    "&A SETB (D'%)\n",
    "&A SETC T'%\n",
    "&A SETC (UPPER '%')\n",
    "&A SETA C2A(%)\n",
    " AINSERT %\n",
    "A OPSYN %\n",
    "A LOCTR\n CNOP %\n",
    " PUNCH %\n",
    " LTORG\n LA 1,=%\n",
    " MACRO\n M &A\n&B SETA K'&A%+N'&SYSLIST(%)\n MEND\n M (1,2)\n",
    " MACRO\n M &A\n MEXIT %\n ASPACE %\n MEND %\n M\n",
    " MACRO\n MACRO %\n M\n MEND\n MEND\n",
    "A DXD %\nA DSECT %\n",
    " AIF (T'A EQ '%').A\n.A ANOP\nA DC F%\n",
    " AGO .B%\n MACRO\n M\n MEND\n.B DC %\n",
    "&A SETA 1,%,2\n",
    "&A SETB (1 AND %)\n",
    "&A SETC 'A'.'%'(1,%)\n",
    "&A SETC (%)'A'\n",
    "A DC AL1(%)\nB DC AL(L'A)(%)\n",
    " DC 2F'%',%\n",
    " DC P'%',FS1'%',E'%'\n",
    "\xc3\xa9% DC C'\xf0\x9f\x98\x80%'\n",
    "A DC C'\xe2\x82\xac%\n",
    "\r\n%\r\n A\r",
};
extern "C" void sx_setup()
{
    std::vector<std::string> w;
    for (auto& c : contexts)
        for (const char* s : { "A", "1", "'", "&A", "(" })
        {
            auto t = c;
            while (t.find('%') != t.npos)
                t.replace(t.find('%'), 1, s);
            w.push_back(t);
        }
    setup(w);
}
extern "C" void sx_main()
{
    unsigned k = sx::choose("context", contexts.size());
    std::string c, t = contexts[k];
    for (unsigned i = 0; i < NC; ++i)
        c += sx::one_of("c", ALPHABET);
    for (auto p = t.find('%'); p != t.npos; p = t.find('%', p + NC))
        t.replace(p, 1, c);
    sx::note("text", t);
    run r(t, {}, workspaces::empty_parse_lib_provider::instance, true);
    std::vector<size_t> lines { 0 };
    for (char ch : t)
        if (ch == '\n')
            lines.push_back(0);
        else
            ++lines.back();
    sx::note("codes", r.codes());
    for (auto& d : r.a->diags())
    {
        sx::note("diag", d.code + " " + std::to_string(d.diag_range.start.line) + ":" + std::to_string(d.diag_range.start.column) + "-" + std::to_string(d.diag_range.end.line) + ":" + std::to_string(d.diag_range.end.column));
        sx::check(d.file_name == "f", "report belongs to the file");
        sx::check(d.diag_range.start.line < lines.size(), "reported line exists");
        sx::check(d.diag_range.start.column <= lines[d.diag_range.start.line], "reported column exists");
        sx::check(d.diag_range.end.line < lines.size(), "end of report exists");
        sx::check(d.diag_range.end.column <= lines[d.diag_range.end.line] + 1, "end column of report exists");
        sx::check(std::pair(d.diag_range.start.line, d.diag_range.start.column) <= std::pair(d.diag_range.end.line, d.diag_range.end.column), "report is a range");
        sx::check(!d.message.empty(), "reports have a message");
    }
    size_t line = 0, col = 0;
    for (auto& x : r.a->source_processor().semantic_tokens())
    {
        auto& g = x.token_range;
        sx::note("token", std::to_string(g.start.line) + ":" + std::to_string(g.start.column) + "-" + std::to_string(g.end.line) + ":" + std::to_string(g.end.column));
        sx::check(g.start.line > line || (g.start.line == line && g.start.column >= col), "tokens are in order of their beginning");
        sx::check(g.start.line == g.end.line && g.start.column < g.end.column, "tokens lie on one line");
        sx::check(g.end.line < lines.size() && g.end.column <= lines[g.end.line], "tokens lie within the text");
        line = g.start.line;
        col = g.start.column;
    }
    sx::cover(r.a->diags().empty() ? "valid" : "reported");
}
