// P01: after any history of didOpen/didChange the server's text is the client's text.
// Oracle: the client's document is a byte string; an edit replaces [b,e) of it. Positions sent over LSP are computed
// from scratch (line = number of line ends before, column = UTF-16 units since the last line end).
#include "sx.h"
#include "workspaces/file_manager_impl.h"
#include "workspaces/file_impl.h"
#include <vector>
using namespace hlasm_plugin::parser_library;
using namespace hlasm_plugin::parser_library::workspaces;
#ifndef L0
#define L0 3 // bytes of the opened document
#endif
#ifndef L1
#define L1 2 // bytes inserted by the first change
#endif
#ifndef NCH
#define NCH 2 // changes
#endif

static bool cont(unsigned char c) { return (c & 0xC0) == 0x80; }
// well-formed UTF-8 (RFC 3629)
static bool valid_utf8(const std::string& s)
{
    size_t i = 0;
    while (i < s.size())
    {
        unsigned char c = s[i];
        size_t n;
        if (c < 0x80)
            n = 1;
        else if (c >= 0xC2 && c < 0xE0)
            n = 2;
        else if ((c & 0xF0) == 0xE0)
            n = 3;
        else if (c >= 0xF0 && c < 0xF5)
            n = 4;
        else
            return false;
        if (i + n > s.size())
            return false;
        for (size_t k = 1; k < n; ++k)
            if (!cont(s[i + k]))
                return false;
        if (n == 3 && ((c == 0xE0 && (unsigned char)s[i + 1] < 0xA0) | (c == 0xED && (unsigned char)s[i + 1] >= 0xA0)))
            return false;
        if (n == 4 && ((c == 0xF0 && (unsigned char)s[i + 1] < 0x90) | (c == 0xF4 && (unsigned char)s[i + 1] >= 0x90)))
            return false;
        i += n;
    }
    return true;
}
static bool boundary(const std::string& s, size_t o)
{
    if (o == 0 || o >= s.size())
        return true;
    if (cont(s[o]))
        return false;
    return !(s[o - 1] == '\r' && s[o] == '\n');
}
static position pos_of(const std::string& s, size_t o)
{
    size_t line = 0, col = 0;
    for (size_t i = 0; i < o;)
    {
        unsigned char c = s[i];
        if (c == '\n' || (c == '\r' && !(i + 1 < s.size() && s[i + 1] == '\n')))
        {
            ++line;
            col = 0;
            ++i;
        }
        else if (c == '\r')
            ++i;
        else if (c < 0x80)
            ++i, ++col;
        else if (c < 0xE0)
            i += 2, ++col;
        else if (c < 0xF0)
            i += 3, ++col;
        else
            i += 4, col += 2;
    }
    return { line, col };
}
static bool line_end(const std::string& s, size_t o) { return o == s.size() || s[o] == '\n' || s[o] == '\r'; }

static const char* U = "u";
extern "C" void sx_setup() {}

extern "C" void sx_main()
{
    file_manager_impl fm;
    std::string doc = sx::str("doc", L0);
    sx::assume(valid_utf8(doc));
    std::string uri = U;
    fm.did_open_file(uri, 1, doc);
    sx::check(fm.find(uri)->get_text() == doc, "text after didOpen");
    for (int k = 0; k < NCH; ++k)
    {
        size_t n = k == 0 ? sx::choose("len", L1 + 1) : 1;
        std::string ins = k == 0 ? sx::str("ins", n) : std::string("X");
        sx::assume(valid_utf8(ins));
        // full replacement of the document
        unsigned kind = k == 0 ? sx::choose("kind", 4) : 0;
        if (kind == 1)
        {
            document_change c(ins.data(), ins.size());
            fm.did_change_file(uri, 2, &c, 1);
            doc = ins;
            sx::cover("full text change");
        }
        else
        {
            size_t b = sx::choose("begin", doc.size() + 1);
            size_t e = k + 1 == NCH && NCH > 1 ? b : b + sx::choose("end", doc.size() + 1 - b);
            sx::assume(boundary(doc, b));
            sx::assume(boundary(doc, e));
            range r(pos_of(doc, b), pos_of(doc, e));
            // a column behind the end of its line means the end of the line (LSP, Position)
            if (kind == 2)
            {
                sx::assume(line_end(doc, e));
                r.end.column += 3;
                sx::cover("column beyond end of line");
            }
            // a line behind the last line means the end of the document
            if (kind == 3)
            {
                sx::assume(e == doc.size());
                r.end.line += 1;
                r.end.column = 0;
                sx::cover("line beyond the last line");
            }
            document_change c(r, ins.data(), ins.size());
            fm.did_change_file(uri, 2, &c, 1);
            if (r.end.line > r.start.line)
                sx::cover("multi-line range");
            doc.replace(b, e - b, ins);
        }
        sx::note("doc", doc);
        sx::check(fm.find(uri)->get_text() == doc, k == 0 ? "text after first change" : "text after later change");
        sx::check(fm.find(uri)->get_version() == (version_t)(k + 2), "version after change");
    }
    sx::check(fm.find(uri)->get_lsp_editing(), "the client's text takes precedence while the document is open");
}
