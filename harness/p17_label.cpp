// P17 (2): a sequence symbol may name any statement, branches to it work in both directions.
#include "asm.h"
using namespace ah;
static const char* const stmts[] = { "ANOP", "M", "M A,B", "LR 1,1", "L 1,2(3)", "DC F'1'", "DS 0F", "ORG *", "CNOP 0,4", "USING *,1", "DROP", "EJECT", "SPACE 1", "PRINT ON",
    "TITLE 'A'", "PUSH PRINT", "LTORG", "MNOTE 'A'", "MNOTE 1,'A'", "LCLA &Q", "GBLB &Q2", "ACTR 100", "AIF (0).X1", "AGO (0).X1", "AGO .X1", "UNKNOWN", "UNKNOWN A,B", "&O 1,1", "&N A",
    "DC A(X", "LR", "ENTRY A", "EXTRN B", "LOCTR", "MACRO\n N\n MEND", "AINSERT ' ANOP',BACK" };
extern "C" void sx_setup()
{
    std::vector<std::string> w;
    for (auto s : stmts)
        w.push_back(" GBLC &O,&N\n&O SETC 'LR'\n&N SETC 'M'\n MACRO\n&L M &P\n MEND\n.L " + std::string(s) + "\n AGO .X1\n.X1 ANOP\n&A SETA 1\n AIF (&A EQ 2).L\n");
    setup(w);
}
extern "C" void sx_main()
{
    unsigned k = sx::choose("statement", sizeof stmts / sizeof *stmts);
    bool macro = sx::choose("macro", 2), forward = sx::choose("forward", 2);
    std::string s = stmts[k];
    if (macro && s.find("MACRO") == 0)
        return;
    unsigned n = 1 + sx::choose("times", 2);
    std::string head = " GBLC &O,&N\n&O SETC 'LR'\n&N SETC 'M'\n MACRO\n&L M &P\n MEND\n";
    std::string body;
    if (forward)
        body += " AGO .L\n&A SETA 100\n";
    body += ".L " + s + "\n.X1 ANOP\n&A SETA &A+1\n AIF (&A LT " + std::to_string(n) + ").L\n.Y ANOP\n&B SETA &A\n";
    std::string text = macro ? head + " MACRO\n W\n GBLC &O,&N\n GBLA &A,&B\n" + body + " MEND\n GBLA &A,&B\n W\n" : head + " GBLA &A,&B\n" + body;
    sx::note("text", text);
    run r(text);
    sx::note("codes", r.codes());
    auto b = r.var<int>("B");
    sx::check(b && *b == (int)n, "the statements behind the symbol are processed once for each branch to it");
    sx::check(!r.has("E047") && !r.has("E045"), "sequence symbols of all statements are defined");
    sx::cover(macro ? "macro" : "open code");
}
