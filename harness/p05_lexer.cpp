// P05: tokens cover the source text exactly and carry the right text, line and columns.
#include <string>
#include <vector>

#include "antlr4-runtime.h"

#include "lexing/input_source.h"
#include "lexing/lexer.h"
#undef text
#include "sx.h"
using namespace hlasm_plugin::parser_library;
using L = lexing::lexer;
#ifndef N1
#define N1 3
#endif

struct doc
{
    std::u32string u;
    std::string s;
    void put(char32_t c, size_t len)
    {
        u.push_back(c);
        if (len == 1)
            s.push_back((char)c);
        else if (len == 2)
            s += { (char)(0xc0 | c >> 6), (char)(0x80 | (c & 63)) };
        else if (len == 3)
            s += { (char)(0xe0 | c >> 12), (char)(0x80 | (c >> 6 & 63)), (char)(0x80 | (c & 63)) };
        else
            s += { (char)(0xf0 | c >> 18), (char)(0x80 | (c >> 12 & 63)), (char)(0x80 | (c >> 6 & 63)), (char)(0x80 | (c & 63)) };
    }
    void ascii(const std::string& t)
    {
        for (char c : t)
            put((unsigned char)c, 1);
    }
    void any(bool wide = true)
    {
        unsigned k = wide ? sx::choose("class", 4) : 0;
        uint8_t c = sx::any<uint8_t>("c");
        if (k == 0)
        {
            sx::assume(c < 0x80);
            put(c, 1);
        }
        else
        {
            sx::assume(c < 0x40);
            put((k == 1 ? 0xc0u : k == 2 ? 0x2080u : 0x1f600u) + c, k + 1);
            sx::cover("wide character");
        }
    }
};
extern "C" void sx_setup() {}
extern "C" void sx_main()
{
    doc d;
    unsigned form = sx::choose("form", 4);
    bool unlimited = false, dbcs = false;
    if (form == 0)
    {
        size_t n = sx::choose("n", N1 + 1);
        for (size_t i = 0; i < n; ++i)
            d.any(n < 3);
        if (n == N1)
            sx::cover("short text");
    }
    else if (form == 1)
    {
        // around the end column of the line and the continuation column of the next one
        d.ascii(sx::choose("start", 2) ? "*" : " ");
        d.ascii(std::string(68, 'A') + " ");
        static const char* last[] = { "A", " ", ",", "'", "\n" };
        d.ascii(last[sx::choose("last", 5)]);
        d.any(true);
        d.ascii(sx::choose("behind", 2) ? "1 " : "");
        d.ascii(sx::choose("crlf", 2) ? "\r\n" : "\n");
        d.ascii(std::string(14, ' '));
        for (int i = 0; i < N1 - 2; ++i)
            d.any(false);
        static const char* next[] = { "", "X", "\n", "," };
        d.ascii(next[sx::choose("next", 4)]);
        sx::cover("end of line");
    }
    else if (form == 2)
    {
        unlimited = true;
        d.ascii(" " + std::string(69, 'A'));
        for (int i = 0; i < N1 - 1; ++i)
            d.any(i == 1);
        d.ascii("B\n");
    }
    else
    {
        // two short lines
        d.any(false);
        d.ascii("L'B,\n");
        d.any(true);
        d.ascii("'C");
    }
    sx::note("text", d.s);
    lexing::input_source in(d.s);
    L l(&in, nullptr);
    l.set_unlimited_line(unlimited);
    l.set_double_byte_enabled(dbcs);

    const size_t n = d.u.size();
    std::vector<size_t> line(n + 1), col(n + 1), c16(n + 1);
    for (size_t i = 0; i < n; ++i)
    {
        bool nl = d.u[i] == U'\n';
        line[i + 1] = line[i] + nl;
        col[i + 1] = (col[i] + 1) & ((size_t)nl - 1);
        c16[i + 1] = (c16[i] + 1 + (d.u[i] > 0xffff)) & ((size_t)nl - 1);
    }
    std::vector<char> covered(n, 0), deflt(n, 0);
    size_t count = 0, next = 0, index = 0;
    bool contToken = false;
    for (;; ++count)
    {
        sx::check(count < 3 * n + 6, "the lexer terminates");
        auto tk = l.nextToken();
        auto* t = dynamic_cast<lexing::token*>(tk.get());
        sx::check(t != nullptr, "a token");
        size_t type = t->getType();
        if (type == antlr4::Token::EOF)
            break;
        sx::check(t->getTokenIndex() == index++, "tokens are numbered in order");
        size_t a = t->getStartIndex(), b = t->getStopIndex() + 1; // [a, b)
        sx::check(a <= b && b <= n, "token within the text");
        sx::check(a < b || type == L::EOLLN, "no empty tokens");
        sx::check(t->getLine() == line[a], "line of a token");
        sx::check(t->getCharPositionInLine() == c16[a], "column of a token");
        sx::check(type == L::EOLLN || b == a || t->get_end_of_token_in_line_utf16() == c16[b], "UTF-16 end column of a token");
        std::string txt = a < b ? t->getText() : "";
        doc e;
        for (size_t i = a; i < b; ++i)
            e.put(d.u[i], d.u[i] < 0x80 ? 1 : d.u[i] < 0x800 ? 2 : d.u[i] < 0x10000 ? 3 : 4);
        if (a < b)
        {
            sx::check(txt.size() == e.s.size(), "text of a token");
            bool eq = true;
            for (size_t i = 0; i < txt.size(); ++i)
                eq = eq & (txt[i] == e.s[i]);
            sx::check(eq, "text of a token");
        }
        for (size_t i = a; i < b; ++i)
            covered[i] = 1;
        if (t->getChannel() == L::DEFAULT_CHANNEL)
        {
            sx::check(a >= next, "tokens of the statement do not overlap");
            next = b;
            for (size_t i = a; i < b; ++i)
                deflt[i] = 1;
        }
        bool allord = true, alldig = true;
        for (size_t i = a; i < b; ++i)
        {
            char32_t c = d.u[i], up = c & 0xdf;
            bool dg = (c >= '0') & (c <= '9');
            alldig = alldig & dg;
            allord = allord & ((c < 128) & (((up >= 'A') & (up <= 'Z')) | dg | (c == '_') | (c == '@') | (c == '#') | (c == '$')));
        }
        if (a < b)
        {
            bool first = (d.u[a] >= '0') & (d.u[a] <= '9');
            if (a > 0 && d.u[a - 1] == '&')
                ; // the parser diagnoses what follows an ampersand
            else if (type == L::ORDSYMBOL)
                sx::check(allord & !first, "an ordinary symbol consists of its characters only");
            else if (type == L::NUM)
                sx::check(alldig, "a number consists of digits");
            else if (type == L::IDENTIFIER)
                sx::check((!alldig) & !(allord & !first & (b - a <= 63)), "what is a symbol or a number is recognised as one");
            else if (type == L::SPACE)
                for (size_t i = a; i < b; ++i)
                    sx::check(d.u[i] == ' ', "a space token consists of blanks");
            else if (type != L::EOLLN && type != L::IGNORED && type != L::COMMENT && type != L::CONTINUATION)
            {
                static const struct { size_t t; char c; } one[] = { { L::ASTERISK, '*' }, { L::DOT, '.' }, { L::MINUS, '-' }, { L::PLUS, '+' },
                    { L::EQUALS, '=' }, { L::LT, '<' }, { L::GT, '>' }, { L::COMMA, ',' }, { L::LPAR, '(' }, { L::RPAR, ')' }, { L::APOSTROPHE, '\'' },
                    { L::ATTR, '\'' }, { L::SLASH, '/' }, { L::AMPERSAND, '&' }, { L::VERTICAL, '|' } };
                bool known = false;
                for (auto& o : one)
                    if (o.t == type)
                    {
                        known = true;
                        sx::check(b - a == 1 && d.u[a] == (unsigned char)o.c, "a special character is its own token");
                    }
                (void)known;
            }
        }
        contToken |= type == L::CONTINUATION;
    }
    bool all = true;
    for (size_t i = 0; i < n; ++i)
        all &= covered[i];
    sx::check(all, "every character belongs to a token");
    if (form == 0 || form == 3)
    {
        // short lines: what is not a comment is in the statement's tokens
        bool cmt = false, all2 = true;
        for (size_t i = 0; i < n; ++i)
        {
            if (col[i] == 0)
                cmt = d.u[i] == '*' || (d.u[i] == '.' && i + 1 < n && d.u[i + 1] == '*');
            if (!cmt)
                all2 &= deflt[i];
        }
        sx::check(all2, "the characters of a statement reach the parser");
    }
    if (form == 1)
    {
        bool brk = false; // line ends before column 72
        for (size_t i = 70; i < 72; ++i)
            brk = brk || d.u[i] == '\n';
        if (!brk && d.u[70] != '\r')
        {
            char32_t c = d.u[71];
            bool white = (c == ' ') || (c >= 9 && c <= 13);
            sx::check(white || contToken, "a character in the continuation column continues the statement");
            sx::check(!white || !contToken, "a blank continuation column ends the statement");
            sx::cover(contToken ? "continued" : "not continued");
        }
    }
}
