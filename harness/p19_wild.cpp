// P19 (1): wildcards of program names: * any sequence, ? any one character, everything else itself.
#include <regex>
#include <string>

#include "sx.h"
#include "workspaces/wildcard.h"
#ifndef PL
#    define PL 3
#endif
#ifndef FL
#    define FL 3
#endif
using namespace hlasm_plugin::parser_library;

static bool glob(const std::string& p, size_t i, const std::string& f, size_t j)
{
    if (i == p.size())
        return j == f.size();
    if (p[i] == '*')
    {
        for (size_t k = j; k <= f.size(); ++k)
            if (glob(p, i + 1, f, k))
                return true;
        return false;
    }
    if (j == f.size())
        return false;
    if (p[i] != '?' && p[i] != f[j])
        return false;
    return glob(p, i + 1, f, j + 1);
}

static std::string text(const char* name, unsigned max)
{
    std::string s(sx::choose(name, max + 1), 'a');
    for (auto& c : s)
#ifdef ALPHABET
        c = sx::one_of(name, ALPHABET);
#else
        c = (char)sx::byte_in(name, 0x21, 0x7e);
#endif
    return s;
}

extern "C" void sx_setup() { workspaces::wildcard2regex("a*"); }

extern "C" void sx_main()
{
    std::string p = text("pattern", PL);
    std::string f = text("file", FL);
    bool got;
    try
    {
        got = std::regex_match(f, workspaces::wildcard2regex(p));
    }
    catch (const std::regex_error&)
    {
        sx::check(false, "every pattern is accepted");
        return;
    }
    bool want = glob(p, 0, f, 0);
    if (want)
        sx::cover("match");
    else
        sx::cover("no match");
    sx::check(got == want, "a pattern matches exactly the names it describes");
}
