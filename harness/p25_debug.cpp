// P25: the macro tracer under every interleaving (bounded preemptions): where it stops, what it shows, and that it ends.
#include "fib_core.h"
#include "fib_impl.h"

#include "debugger.h"
#include "debugging/debug_types.h"
#include "lib_config.h"
#include "workspaces/file_manager_impl.h"
#include "workspaces/workspace.h"
using namespace hlasm_plugin::parser_library;
using namespace hlasm_plugin::parser_library::workspaces;
namespace dbg = hlasm_plugin::parser_library::debugging;
#ifndef NC
#    define NC 3 // commands of the user
#endif
static const char FILE_NAME[] = "prog";
struct stop
{
    size_t first, last; // lines of the statement
    size_t depth;
    int a; // value of &A there, in the scope of the statement
};
// the statements in the order of their execution
static const stop TRACE[] = {
    { 0, 0, 1, 0 }, // MACRO
    { 4, 4, 1, 0 }, // &A SETA 7
    { 5, 5, 1, 7 }, // M 3
    { 2, 2, 2, 0 }, // &A SETA &A+&P
    { 3, 3, 2, 3 }, // MEND
    { 6, 7, 1, 7 }, // &A SETA 8, continued
    { 9, 9, 1, 8 }, // AIF
    { 11, 11, 1, 8 }, // .X ANOP
    { 12, 12, 1, 8 }, // LR
};
static constexpr size_t LINES = 13;
static std::string* TEXT;
static file_manager_impl* FM;
static lib_config* CONF;
static workspace* WS;
struct empty_lib : parse_lib_provider
{
    parse_result parse_library(const std::string&, analyzing_context, const library_data) override { return false; }
    bool has_library(const std::string&, const std::string&) const override { return false; }
    const asm_option& get_asm_options(const std::string&) override { return o; }
    asm_option o;
};
static empty_lib* LIB;
struct consumer : dbg::debug_event_consumer
{
    int stops = 0, exits = 0;
    void stopped(sequence<char>, sequence<char>) override
    {
        sx::check(!exits, "nothing stops after the end");
        ++stops;
        fib::wake(this, true);
        fib::point("event");
    }
    void exited(int) override
    {
        ++exits;
        fib::wake(this, true);
        fib::point("event");
    }
};
extern "C" void sx_setup()
{
    TEXT = new std::string(std::string(" MACRO\n M &P\n&A SETA &A+&P\n MEND\n&A SETA 7\n M 3\n") + std::string("&A SETA").append(62, ' ') + "7+X\n               1\n* COMMENT\n AIF (1).X\n LR 3,3\n.X ANOP\n LR 1,2\n");
    FM = new file_manager_impl;
    CONF = new lib_config;
    WS = new workspace(*FM, *CONF);
    LIB = new empty_lib;
    FM->did_open_file(FILE_NAME, 0, *TEXT);
}
// until the program stopped once more or is at its end
static void wait_for(const consumer& c, int stops)
{
    while (c.stops < stops && !c.exits)
        fib::block(&c);
}
static void shows(dbg::debugger& d, const stop& s)
{
    auto f = d.stack_frames();
    sx::check(f.size() == s.depth, "the stack shows every nested macro call");
    if (f.size() == s.depth)
    {
        auto top = f.item(0);
        sx::check(top.source_range.start.line == s.first, "the stack shows the statement that is executed next");
        sx::check(std::string_view(top.source_file.path) == FILE_NAME, "the stack shows the file of the statement");
        if (s.depth == 2)
            sx::check(f.item(1).source_range.start.line == 5 && f.item(1).id != top.id, "the stack shows the macro call");
        auto sc = d.scopes(top.id);
        sx::check(sc.size() == 3, "a frame has its scopes");
        int found = -1;
        if (sc.size() == 3)
        {
            auto v = d.variables(sc.item(1).variable_reference);
            for (size_t i = 0; i < v.size(); ++i)
                if (auto x = v.item(i); std::string_view(x.name) == "&A")
                    found = atoi(std::string(std::string_view(x.value)).c_str());
        }
        sx::note("value", std::to_string(found));
        sx::check(s.a ? found == s.a : found <= 0, "a variable is shown with its value");
    }
}
enum cmd
{
    NEXT,
    STEP,
    CONT,
    STOP,
    CMDS
};
static size_t BP;
static bool hit(const stop& s) { return BP >= s.first && BP <= s.last; }
// where execution stops next after position p (or before the first statement: -1), as the user asked
static size_t next_stop(int p, cmd c, bool fresh_entry)
{
    for (size_t i = p + 1; i < std::size(TRACE); ++i)
    {
        if (hit(TRACE[i]) || fresh_entry)
            return i;
        if (p >= 0 && (c == STEP || (c == NEXT && TRACE[i].depth <= TRACE[p].depth)))
            return i;
    }
    return std::size(TRACE);
}
static void breakpoint_at(dbg::debugger& d, const char* file, size_t line)
{
    std::vector<breakpoint> b;
    b.emplace_back(line);
    d.breakpoints(std::string_view(file), sequence<breakpoint>(b));
}
// a client that acts when it was told that the program stopped
static void patient()
{
    consumer c;
    {
        dbg::debugger d;
        d.set_event_consumer(&c);
        BP = sx::choose("breakpoint", LINES + 1);
#ifdef FEW
        sx::assume(BP == 2 || BP == 7 || BP == LINES);
#endif
        bool other = sx::choose("other file", 2);
        breakpoint_at(d, other ? "other" : FILE_NAME, BP);
        if (other)
            BP = 1000;
        bool entry = sx::choose("stop on entry", 2);
        d.launch(std::string_view(FILE_NAME), *WS, entry, LIB);
        int stops = 0;
        size_t at = next_stop(-1, CONT, entry);
        int n = 0;
        while (true)
        {
            bool end = at == std::size(TRACE);
            wait_for(c, end ? 1000 : stops + 1);
            sx::note("state", "at " + std::to_string(at) + " stops " + std::to_string(c.stops) + " exits " + std::to_string(c.exits) + (c.stops > stops ? " line " + std::to_string(d.stack_frames().item(0).source_range.start.line) : ""));
            sx::check(end ? c.exits == 1 : !c.exits, "the end of the program is reported, once, when it is reached");
            sx::check(c.stops == stops + !end, "the program stops exactly at breakpoints and at the end of steps");
            stops = c.stops;
            if (end)
            {
                sx::check(d.stack_frames().size() == 0, "nothing is shown of a program at its end");
                sx::cover("end");
                break;
            }
            shows(d, TRACE[at]);
            sx::cover("stop");
            if (++n > NC)
            {
                d.disconnect();
                break;
            }
            cmd k = (cmd)sx::choose("command", CMDS);
            if (k == STOP)
            {
                d.disconnect();
                sx::cover("disconnect");
                break;
            }
            if (sx::choose("move breakpoint", 2))
            {
                size_t l = TRACE[std::size(TRACE) - 2].first;
                breakpoint_at(d, FILE_NAME, l);
                BP = l;
            }
            k == NEXT ? d.next() : k == STEP ? d.step_in() : d.continue_debug();
            at = next_stop((int)at, k, false);
        }
    }
    sx::check(c.exits <= 1, "the end is reported once");
}
// a client that does not wait: whatever it asks for, its requests return and ending the session ends the program
static void hasty()
{
    consumer c;
    {
        dbg::debugger d;
        d.set_event_consumer(&c);
        BP = 2;
        breakpoint_at(d, FILE_NAME, BP);
        d.launch(std::string_view(FILE_NAME), *WS, sx::choose("stop on entry", 2), LIB);
        for (int i = 0; i < 2; ++i)
            switch (sx::choose("request", 6))
            {
                case 0:
                    d.next();
                    break;
                case 1:
                    d.step_in();
                    break;
                case 2:
                    d.continue_debug();
                    break;
                case 3:
                    breakpoint_at(d, FILE_NAME, 5);
                    break;
                case 4:
                    wait_for(c, 1);
                    break;
                default:
                    break;
            }
        if (sx::choose("ends", 2))
            d.disconnect();
        sx::cover("hasty");
    }
    sx::check(c.exits <= 1, "the end is reported once");
}
extern "C" void sx_main()
{
    fib::start();
#ifdef HASTY
    bool h = true;
#else
    bool h = sx::choose("client", 2);
#endif
    if (h)
        hasty();
    else
        patient();
}
