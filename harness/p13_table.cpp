// P13: the operands of every machine instruction and extended mnemonic, one arbitrary value at every place.
#include "asm.h"
using namespace ah;
#ifndef CHUNKS
#    define CHUNKS 40
#endif
struct ins
{
    const char* name;
    const char* ops;
    int len;
    int opt;
};
static const ins I[] = {
#include "p13_table.inc"
};
static constexpr unsigned NI = sizeof(I) / sizeof(*I);
struct place
{
    char c; // kind of the operand
    int part; // 0 value or displacement, 1 index or length, 2 base
};
static void range_of(place p, long long& lo, long long& hi)
{
    lo = 0;
    hi = 15;
    if (p.part == 2)
        return;
    if (p.part == 1)
    {
        hi = p.c == 'l' ? 256 : p.c == 'k' ? 16 : 15;
        return;
    }
    switch (p.c)
    {
        case 'b': hi = 255; break;
        case 's': lo = -128, hi = 127; break;
        case 'i': case 't': lo = -2048, hi = 2047; break;
        case 'h': case 'j': lo = -32768, hi = 32767; break;
        case 'H': hi = 65535; break;
        case 'u': lo = -8388608, hi = 8388607; break;
        case 'w': case 'J': lo = -2147483648ll, hi = 2147483647ll; break;
        case 'W': hi = 4294967295ll; break;
        case 'd': case 'x': case 'l': case 'k': case 'q': case 'y': hi = 4095; break;
        case 'D': case 'X': lo = -524288, hi = 524287; break;
    }
}
static int parts(char c) { return strchr("dD", c) ? 2 : strchr("xXlkqy", c) ? 3 : 1; }
static std::string statement(const ins& i, int focus, int part, int count)
{
    std::string t;
    for (int j = 0; j < count; ++j)
    {
        char c = i.ops[j];
        auto v = [&](int p) { return std::string(j == focus && p == part ? "A" : "1"); };
        t += j ? "," : "";
        t += parts(c) == 1 ? v(0) : parts(c) == 2 ? v(0) + "(" + v(2) + ")" : v(0) + "(" + v(1) + "," + v(2) + ")";
    }
    return std::string(" ") + i.name + " " + t + "\n";
}
struct line
{
    int ins;
    long long lo, hi;
    int owner;
};
static void make(unsigned chunk, std::string& text, std::vector<line>& lines)
{
    for (unsigned k = chunk; k < NI; k += CHUNKS)
    {
        const ins& i = I[k];
        int n = strlen(i.ops);
        for (int f = 0; f < n; ++f)
            for (int p = 0; p < 3; ++p)
            {
                if (p && parts(i.ops[f]) == 1)
                    continue;
                if (p == 1 && parts(i.ops[f]) == 2)
                    continue;
                long long lo, hi;
                range_of({ i.ops[f], p }, lo, hi);
                text += statement(i, f, p, n);
                lines.push_back({ (int)k, lo, hi, (int)k });
            }
        if (n)
        {
            // one operand too few, one too many
            text += statement(i, -1, 0, n - 1);
            lines.push_back(i.opt || n == 1 ? line { -1, 0, 0, (int)k } : line { (int)k, 1, 0, (int)k });
            std::string t = statement(i, -1, 0, n);
            t.insert(t.size() - 1, ",1");
            text += t;
            lines.push_back({ (int)k, 1, 0, (int)k });
        }
        else
        {
            text += statement(i, -1, 0, 0);
            lines.push_back({ (int)k, -2147483648ll, 2147483647ll, (int)k });
        }
        // the location behind the statements of the instruction
        text += "X" + std::to_string(k) + " EQU *\n";
        lines.push_back({ -2 - (int)k, 0, 0 });
    }
}
static std::string TEXT[CHUNKS];
static std::vector<line> LINES[CHUNKS];
extern "C" void sx_setup()
{
    for (unsigned c = 0; c < CHUNKS; ++c)
        make(c, TEXT[c], LINES[c]);
    setup({ TEXT[0] + "A EQU 1\n" });
}
extern "C" void sx_main()
{
    unsigned c = sx::choose("chunk", CHUNKS);
    int a = sx::any<int>("a");
    run r(TEXT[c], [&](hc::hlasm_context& x) {
        x.ord_ctx.create_symbol(x.ids().add("A"), hc::symbol_value(a), hc::symbol_attributes::make_section_attrs(), {});
    });
    std::vector<char> err(LINES[c].size() + 1);
    for (auto& d : r.a->diags())
        if (d.severity == diagnostic_severity::error && d.diag_range.start.line < err.size())
            err[d.diag_range.start.line] = 1;
    long bytes = 0;
    bool good = true, length = true;
    for (size_t l = 0; l < LINES[c].size(); ++l)
    {
        auto& x = LINES[c][l];
        if (x.ins < -1)
        {
            length &= r.reloc("X" + std::to_string(-2 - x.ins)).value_or(-1) == bytes;
            continue;
        }
        bytes += I[x.owner].len;
        if (x.ins < 0)
            continue;
        bool ok = (a >= x.lo) & (a <= x.hi);
        if (ok == (err[l] != 0))
        {
            good = false;
            size_t b = 0;
            for (size_t q = 0; q < l; ++q)
                b = TEXT[c].find('\n', b) + 1;
            sx::note("statement", TEXT[c].substr(b, TEXT[c].find('\n', b) - b));
        }
    }
    sx::check(good, "an operand is reported exactly if it is out of range or their number is wrong");
    sx::check(length, "length of the machine instructions");
    sx::cover("table");
}
