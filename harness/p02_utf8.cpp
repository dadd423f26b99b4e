// P02: whatever bytes a file on disk holds, the text handed to the analysis is well-formed UTF-8: valid characters are
// kept, every offending byte becomes U+FFFD, and the lexer's input accepts the result with one code point per character.
#include <string>
#include <vector>

#include "antlr4-runtime.h"

#include "lexing/input_source.h"
#include "workspaces/file_impl.h"
#undef text
#include "sx.h"
using namespace hlasm_plugin::parser_library;
#ifndef NB
#define NB 4
#endif
// RFC 3629: length of the well-formed character at p, 0 if there is none
static size_t wf(const unsigned char* p, size_t n)
{
    unsigned char a = p[0];
    if (a < 0x80)
        return 1;
    if (a < 0xc2 || a > 0xf4)
        return 0;
    size_t len = a < 0xe0 ? 2 : a < 0xf0 ? 3 : 4;
    if (n < len)
        return 0;
    unsigned char lo = a == 0xe0 ? 0xa0 : a == 0xf0 ? 0x90 : 0x80, hi = a == 0xed ? 0x9f : a == 0xf4 ? 0x8f : 0xbf;
    if (p[1] < lo || p[1] > hi)
        return 0;
    for (size_t i = 2; i < len; ++i)
        if ((p[i] & 0xc0) != 0x80)
            return 0;
    return len;
}
extern "C" void sx_setup() {}
extern "C" void sx_main()
{
    size_t n = sx::choose("n", NB + 1);
    std::string s = sx::str("s", n);
    std::string r = workspaces::file_impl::replace_non_utf8_chars(s);
    std::string e;
    size_t chars = 0;
    const unsigned char* p = (const unsigned char*)s.data();
    for (size_t i = 0; i < n; ++chars)
    {
        size_t l = wf(p + i, n - i);
        if (l)
        {
            e.append(s, i, l);
            if (l == 4)
                sx::cover("four-byte character");
        }
        else
        {
            e += "\xEF\xBF\xBD";
            sx::cover("ill-formed");
        }
        i += l ? l : 1;
    }
    sx::check(r.size() == e.size(), "characters are kept, offending bytes replaced");
    bool eq = true;
    for (size_t i = 0; i < r.size(); ++i)
        eq = eq & (r[i] == e[i]);
    sx::check(eq, "characters are kept, offending bytes replaced");
    size_t got = 0;
    std::string back;
    try
    {
        lexing::input_source in(r);
        got = in.size();
        if (got)
            back = in.getText(antlr4::misc::Interval((size_t)0, got - 1));
    }
    catch (...)
    {
        sx::check(false, "the lexer accepts the text of any file");
    }
    if (n >= 3 && e.compare(0, 3, "\xEF\xBB\xBF") == 0) // a byte order mark is not part of the text
    {
        --chars;
        e.erase(0, 3);
    }
    sx::check(got == chars, "one code point per character");
    sx::check(back.size() == e.size(), "text read back from the input");
    eq = true;
    for (size_t i = 0; i < back.size(); ++i)
        eq = eq & (back[i] == e[i]);
    sx::check(eq, "text read back from the input");
}
