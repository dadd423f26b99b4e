// P22 (2): requests at any position of any document are answered.
#include "asm.h"
#include "workspace_manager.h"
using namespace ah;
static const char* const texts[] = {
    "",
    "\n",
    " ",
    "A",
    "A EQU 1",
    "A EQU 1\n",
    "A EQU 1\n LA 1,A\n\n",
    " MACRO\n M &P,&K=(1,2)\n MEND\n M 1\n",
    "* doc\n MACRO\n&L M\n* more\n MEND\nX M\n M",
    " MACRO\n M &P,                                                          X\n               &Q\n.* more",
    " MACRO\n M &P,                                                          X\n               &Q\n MEND\n M",
    " MACRO\n M\n MEND",
    "* a\n* b\n MACRO\n M\n MEND\n M\n",
    ".S ANOP\n AGO .T\n&A SETA 1\n&B SETC '&A'\n.T ANOP\n",
    "\r\nA EQU 1\r\n LA 1,A\r\n",
    "\xf0\x9f\x98\x80\n DC C'\xf0\x9f\x98\x80' \xe2\x82\xac\n\xc3\xa9",
    " DC C'A                                                                X\n               B'\n",
    " MACRO\n M &A,&A\n MEND\n M\n",
    " MACRO\n M\n AIF\n MEND\n M\n MACRO\n M\n MEND\n M\n",
    " MACRO\n M\n MACRO\n N\n MEND\n N\n MEND\n M\nO OPSYN M\n O\n N",
    " MACRO\n\n MEND\n",
    " MACRO\n M 1\n MEND\n M\n",
    " COPY NOTHERE\n COPY A\n",
};
extern "C" void sx_setup()
{
    workspace_manager m;
    for (auto t : texts)
    {
        m.did_open_file("/nonexistent/w", 1, t, strlen(t));
        m.completion("/nonexistent/w", { 0, 0 }, '&', completion_trigger_kind::trigger_character);
    }
}
extern "C" void sx_main()
{
    std::string t = texts[sx::choose("text", sizeof texts / sizeof *texts)];
    static const char* const names[] = { "/nonexistent/f", "/nonexistent/other", "/nonexistent/.hlasmplugin/pgm_conf.json" };
    const char* name = names[sx::choose("document", 3)];
    sx::note("text", t);
    workspace_manager m;
    if (name != names[1])
        m.did_open_file(name, 1, t.c_str(), t.size());
    unsigned nl = 2;
    for (char ch : t)
        nl += ch == '\n';
    unsigned l = sx::choose("line", nl);
    unsigned c = sx::any<unsigned char>("column");
    position pos { l, c };
    switch (sx::choose("request", 5))
    {
        case 0: {
            auto d = m.definition(name, pos);
            sx::check(!d.file().empty(), "a place");
            break;
        }
        case 1: {
            auto r = m.references(name, pos);
            for (size_t i = 0; i < r.size(); ++i)
                sx::check(r.item(i).pos().line < nl, "references exist");
            break;
        }
        case 2: {
            auto h = m.hover(name, pos);
            sx::check(h.size() < 10000, "hover text");
            break;
        }
        case 3: {
            auto r = m.completion(name, pos, '\0', completion_trigger_kind::invoked);
            for (size_t i = 0; i < r.size() && i < 3; ++i)
                sx::check(!r.item(i).label().empty(), "items have a label");
            break;
        }
        case 4: {
            static const char trig[] = "&. ";
            auto r = m.completion(name, pos, trig[sx::choose("trigger", 3)], completion_trigger_kind::trigger_character);
            sx::check(r.size() < 100000, "items");
            break;
        }
    }
    m.semantic_tokens(name);
    sx::cover("answered");
}
