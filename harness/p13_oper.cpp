// P13: operands of machine instructions: number, form and range of every operand of every format.
#include "asm.h"
using namespace ah;

// r register, m mask, v vector register, n/b/s/h/H/w immediate (4 bits, 8 bits, 8 signed, 16 signed, 16, 32 signed),
// j/J relative (16/32 bits), d/D displacement (12/20 bits) and base, x/X displacement, index and base,
// l/k displacement, length (8/4 bits) and base, q displacement, register and base; ? the last one may be omitted
struct ins
{
    const char* name;
    const char* ops;
    int len;
};
static const ins I[] = {
    { "LR", "rr", 2 }, { "BCR", "mr", 2 }, { "SVC", "b", 2 }, { "SPM", "r", 2 }, { "PR", "", 2 },
    { "L", "rx", 4 }, { "BC", "mx", 4 }, { "STM", "rrd", 4 }, { "ICM", "rmd", 4 }, { "SLL", "rd", 4 },
    { "MVI", "db", 4 }, { "LPSW", "d", 4 }, { "AHI", "rh", 4 }, { "BRC", "mj", 4 }, { "BRAS", "rj", 4 },
    { "BRXH", "rrj", 4 }, { "LGR", "rr", 4 }, { "LOCR", "rrm", 4 }, { "FIDBRA", "rmrm", 4 }, { "IPK", "", 4 },
    { "LG", "rX", 6 }, { "STMG", "rrD", 6 }, { "ICMY", "rmD", 6 }, { "TMY", "Db", 6 }, { "ASI", "Ds", 6 },
    { "MVHI", "dh", 6 }, { "CLFHSI", "dH", 6 }, { "CFI", "rw", 6 }, { "LARL", "rJ", 6 }, { "CRJ", "rrmj", 6 },
    { "CGIJ", "rsmj", 6 }, { "CRB", "rrmd", 6 }, { "AHIK", "rrh", 6 }, { "LOC", "rDm", 6 },
    { "MVC", "ld", 6 }, { "PACK", "kk", 6 }, { "SRP", "kdn", 6 }, { "MVCK", "qdr", 6 }, { "LMD", "rrdd", 6 },
    { "PLO", "rdrd", 6 }, { "MVCOS", "ddr", 6 }, { "TP", "k", 6 },
    { "VL", "vxm?", 6 }, { "VA", "vvvm", 6 }, { "VLEIB", "vhm", 6 }, { "VGM", "vbbm", 6 }, { "VLVG", "vrdm", 6 },
    // extended mnemonics
    { "BNE", "x", 4 }, { "J", "j", 4 }, { "NOPR", "r", 2 }, { "CRJH", "rrj", 6 }, { "LOCE", "rD", 6 }, { "VAB", "vvv", 6 },
    { "JLU", "J", 6 }, { "CIBNE", "rsd", 6 }, { "VLGVB", "rvd", 6 },
};
static constexpr unsigned NI = sizeof(I) / sizeof(*I);
static bool in(int v, long long lo, long long hi) { return (v >= lo) & (v <= hi); }
static const std::string HEAD = "S CSECT\n DS X\n";
static std::string prog(const std::string& st) { return HEAD + "L0 " + st + "\nL1 DS 0X\n"; }

extern "C" void sx_setup()
{
    std::vector<std::string> w;
    std::string all = HEAD;
    for (auto& i : I)
    {
        std::string o;
        for (const char* p = i.ops; *p && *p != '?'; ++p)
            o += std::string(p == i.ops ? "" : ",") + (strchr("dD", *p) ? "A(A)" : strchr("xXlkq", *p) ? "A(A,A)" : "A");
        all += std::string(" ") + i.name + " " + o + "\n";
    }
    w.push_back(all + "L0 MVC A,A\n MVC A(A),A\n MVC A(,A),A(A)\n LR L0,A\n LR A\nA EQU 1\nL1 DS 0X\n");
    w.push_back(prog("LA A,A,A"));
    setup(w);
}
extern "C" void sx_main()
{
    const ins& i = I[sx::choose("instruction", NI)];
    std::string o = i.ops;
    bool opt = !o.empty() && o.back() == '?';
    if (opt)
        o.pop_back();
    unsigned n = o.size();
    // what is special: nothing, an operand missing, one too many, or a relocatable operand
    unsigned sp = sx::choose("special", 4);
    unsigned at = 0;
    if (sp == 3)
    {
        if (!n)
            return;
        at = sx::choose("operand", n);
    }
    if (sp && !n)
        return; // what follows an instruction without operands is a remark
    // the operand with arbitrary values; the others are valid
    unsigned focus = sp ? 99 : n > 1 ? sx::choose("focus", n) : 0, cur = 0;
    int v[16];
    unsigned k = 0;
    bool ok = true;
    std::string text;
    auto part = [&](long long lo, long long hi) {
        if (cur != focus)
            return std::string("1");
        v[k] = sx::any<int>("v");
        ok = ok & in(v[k], lo, hi);
        return std::string(1, char('A' + k++));
    };
    unsigned cnt = sp == 1 ? n - 1 : n;
    for (unsigned j = 0; j < cnt; ++j)
    {
        if (j)
            text += ",";
        char c = o[j];
        cur = j;
        if (sp == 3 && j == at)
        {
            text += "L0";
            ok = ok & (strchr("jJdDxXlkq", c) != nullptr);
            continue;
        }
        long long dlo = 0, dhi = 4095;
        if (c == 'D' || c == 'X')
            dlo = -524288, dhi = 524287;
        switch (c)
        {
            case 'r': case 'm': case 'n': case 'v': text += part(0, 15); break;
            case 'b': text += part(0, 255); break;
            case 's': text += part(-128, 127); break;
            case 'h': case 'j': text += part(-32768, 32767); break;
            case 'H': text += part(0, 65535); break;
            case 'w': case 'J': text += part(-2147483648ll, 2147483647ll); break;
            case 'd':
            case 'D': {
                text += part(dlo, dhi);
                unsigned f = j == focus ? sx::choose("address", 3) : 1;
                if (f == 1)
                    text += "(" + part(0, 15) + ")";
                if (f == 2)
                {
                    text += "(" + part(0, 15) + "," + part(0, 15) + ")";
                    ok = false; // there is no index
                }
                break;
            }
            default: {
                int hi = c == 'l' ? 256 : c == 'k' ? 16 : 15;
                text += part(dlo, dhi);
                unsigned f = j == focus ? sx::choose("address", 4) : 3;
                if (f == 1)
                    text += "(" + part(0, hi) + ")";
                if (f == 2)
                    text += "(," + part(0, 15) + ")";
                if (f == 3)
                    text += "(" + part(0, hi) + "," + part(0, 15) + ")";
            }
        }
    }
    if (sp == 1)
        ok = ok & opt;
    if (sp == 2)
    {
        text += n ? ",1" : "1";
        ok = false;
    }
    std::string st = i.name + std::string(" ") + text;
    sx::note("statement", st);
    run r(prog(st), [&](hc::hlasm_context& c) {
        for (unsigned q = 0; q < k; ++q)
            c.ord_ctx.create_symbol(c.ids().add(std::string(1, char('A' + q))), hc::symbol_value(v[q]), hc::symbol_attributes::make_section_attrs(), {});
    });
    if (ok)
        sx::check(r.errors() == 0, "valid operands are not reported");
    else
        sx::check(r.errors() > 0, "an operand out of range or of a wrong form is reported");
    auto L0 = r.reloc("L0"), L1 = r.reloc("L1");
    sx::check(L0 && *L0 == 2, "a machine instruction begins at a halfword boundary");
    sx::check(L1 && *L1 == 2 + i.len, "length of a machine instruction");
    sx::cover(sp == 0 ? ok ? "valid" : "out of range" : sp == 3 ? "relocatable" : "number of operands");
}
