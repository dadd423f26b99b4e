// P12: data definitions: storage, alignment, attributes and validity of every type, length, factor and value.
#include "asm.h"
using namespace ah;
#ifndef NC
#    define NC 3
#endif
struct type
{
    const char* t;
    int len; // implicit length of one value; 0: as needed
    int align;
    int lo, hi, dshi; // allowed byte lengths (DC, DS)
    int blo, bhi, bdshi; // allowed bit lengths; 0: none
    const char* nom; // a valid value
    int nomlen; // its length, when as needed
    char special; // e: even, 8: 3,4,8, j: 2,3,4,8
    char tattr, tattrl; // type attribute without and with explicit length
};
static const type T[] = {
    { "B", 0, 1, 1, 256, 256, 1, 2048, 2048, "'101'", 1, 0, 'B', 'B' },
    { "C", 0, 1, 1, 256, 65535, 1, 2048, 524280, "'ABC'", 3, 0, 'C', 'C' },
    { "CA", 0, 1, 1, 256, 65535, 1, 2048, 524280, "'ABC'", 3, 0, 'C', 'C' },
    { "CE", 0, 1, 1, 256, 65535, 1, 2048, 524280, "'ABC'", 3, 0, 'C', 'C' },
    { "CU", 0, 1, 1, 256, 256, 0, 0, 0, "'AB'", 4, 'e', 'C', 'C' },
    { "X", 0, 1, 1, 256, 65535, 1, 2048, 524280, "'1A2'", 2, 0, 'X', 'X' },
    { "H", 2, 2, 1, 8, 8, 1, 64, 64, "'-1'", 0, 0, 'H', 'G' },
    { "F", 4, 4, 1, 8, 8, 1, 64, 64, "'1.5E2'", 0, 0, 'F', 'G' },
    { "FD", 8, 8, 1, 8, 8, 1, 64, 64, "'U7'", 0, 0, 'F', 'G' },
    { "P", 0, 1, 1, 16, 16, 1, 128, 128, "'-123'", 2, 0, 'P', 'P' },
    { "Z", 0, 1, 1, 16, 16, 1, 128, 128, "'+123'", 3, 0, 'Z', 'Z' },
    { "A", 4, 4, 1, 8, 8, 1, 128, 128, "(7)", 0, 0, 'A', 'R' },
    { "A", 4, 4, 2, 4, 4, 0, 0, 0, "(L0)", 0, 'r', 'A', 'R' },
    { "AD", 8, 8, 1, 8, 8, 1, 128, 128, "(7)", 0, 0, 'A', 'R' },
    { "AD", 8, 8, 2, 8, 8, 0, 0, 0, "(L0)", 0, 'r', 'A', 'R' },
    { "Y", 2, 2, 1, 2, 2, 1, 16, 16, "(7)", 0, 0, 'Y', 'R' },
    { "Y", 2, 2, 2, 2, 2, 0, 0, 0, "(L0)", 0, 'r', 'Y', 'R' },
    { "S", 2, 2, 2, 2, 2, 0, 0, 0, "(4(15))", 0, 0, 'S', 'R' },
    { "SY", 3, 2, 3, 3, 3, 0, 0, 0, "(4(15))", 0, 0, 'S', 'R' },
    { "V", 4, 4, 3, 4, 4, 0, 0, 0, "(EXT)", 0, 0, 'V', 'R' },
    { "VD", 8, 8, 3, 8, 8, 0, 0, 0, "(EXT)", 0, '8', 'V', 'R' },
    { "R", 4, 4, 3, 4, 4, 0, 0, 0, "(L0)", 0, 0, 'V', 'R' },
    { "RD", 8, 8, 3, 8, 8, 0, 0, 0, "(L0)", 0, '8', 'V', 'R' },
    { "J", 4, 4, 2, 8, 8, 0, 0, 0, "(L0)", 0, 'j', 'A', 'R' },
    { "JD", 8, 8, 2, 8, 8, 0, 0, 0, "(L0)", 0, 'j', 'A', 'R' },
    { "E", 4, 4, 1, 8, 8, 1, 64, 64, "'1.5'", 0, 0, 'E', 'K' },
    { "EH", 4, 4, 1, 8, 8, 12, 64, 64, "'1.5'", 0, 0, 'E', 'K' },
    { "ED", 4, 4, 4, 4, 4, 32, 32, 32, "'1.5'", 0, 0, 'E', 'K' },
    { "EB", 4, 4, 4, 4, 4, 32, 32, 32, "'1.5'", 0, 0, 'E', 'K' },
    { "D", 8, 8, 1, 8, 8, 1, 64, 64, "'1.5E-3'", 0, 0, 'D', 'K' },
    { "DH", 8, 8, 1, 8, 8, 12, 64, 64, "'1.5'", 0, 0, 'D', 'K' },
    { "DD", 8, 8, 8, 8, 8, 64, 64, 64, "'1.5'", 0, 0, 'D', 'K' },
    { "DB", 8, 8, 8, 8, 8, 64, 64, 64, "'1.5'", 0, 0, 'D', 'K' },
    { "L", 16, 8, 1, 16, 16, 1, 128, 128, "'1.5'", 0, 0, 'L', 'K' },
    { "LH", 16, 8, 1, 16, 16, 12, 128, 128, "'1.5'", 0, 0, 'L', 'K' },
    { "LQ", 16, 16, 1, 16, 16, 12, 128, 128, "'1.5'", 0, 0, 'L', 'K' },
    { "LD", 16, 8, 16, 16, 16, 128, 128, 128, "'1.5'", 0, 0, 'L', 'K' },
    { "LB", 16, 8, 16, 16, 16, 128, 128, 128, "'1.5'", 0, 0, 'L', 'K' },
};
static constexpr unsigned NT = sizeof(T) / sizeof(*T);
static const std::string HEAD = "S CSECT\nL0 DS X\n";
static const std::string TAIL = "B DS 0X\nLEN EQU L'A\n";
static auto symbols(int n, int d)
{
    return [n, d](hc::hlasm_context& c) {
        c.ord_ctx.create_symbol(c.ids().add("N"), hc::symbol_value(n), hc::symbol_attributes::make_section_attrs(), {});
        c.ord_ctx.create_symbol(c.ids().add("D"), hc::symbol_value(d), hc::symbol_attributes::make_section_attrs(), {});
    };
}
static void stored(run& r, int start, int bytes, int len)
{
    auto A = r.reloc("A"), B = r.reloc("B");
    sx::check(A && *A == start, "a constant begins at the boundary of its type");
    sx::check(B && *B == start + bytes, "storage a data definition occupies");
    auto L = r.abs("LEN");
    sx::check(L && *L == len, "length attribute of a data definition");
}
// every type, with any factor and any length
static void types()
{
    unsigned ti = sx::choose("type", NT), ins = sx::choose("instruction", 3), lk = sx::choose("length", 3);
    bool dup = sx::choose("factor", 2);
    const type& t = T[ti];
    if (ins == 1 && t.special == 'r')
        return; // as without a value
    int n = sx::any<int>("n"), d = sx::any<int>("d");
    sx::assume(d <= 4000);
    std::string st = std::string("A ") + (ins == 0 ? "DC " : "DS ") + (dup ? "(D)" : "") + t.t
        + (lk == 1 ? "L(N)" : lk == 2 ? "L.(N)" : "") + (ins != 1 ? t.nom : "");
    sx::note("statement", st);
    run r(HEAD + st + "\n" + TAIL, symbols(n, d));
    bool ok = !dup || d >= 0;
    if (lk == 1)
    {
        ok = ok & (n >= t.lo) & (n <= (ins == 0 ? t.hi : t.dshi));
        if (t.special == 'e')
            ok = ok & (n % 2 == 0);
        if (t.special == '8')
            ok = ok & ((n == 3) | (n == 4) | (n == 8));
        if (t.special == 'j')
            ok = ok & ((n == 2) | (n == 3) | (n == 4) | (n == 8));
    }
    if (lk == 2)
        ok = ok & (t.bhi != 0) & (n >= t.blo) & (n <= (ins == 0 ? t.bhi : t.bdshi));
    if (!ok)
    {
        sx::check(r.errors() > 0, "an invalid factor or length is reported");
        sx::cover("invalid factor or length");
        return;
    }
    sx::check(r.errors() == 0, "a valid data definition is not reported");
    int cnt = dup ? d : 1;
    int one = t.len ? t.len : ins == 1 ? (t.special == 'e' ? 2 : 1) : t.nomlen;
    int start = lk ? 1 : (1 + t.align - 1) / t.align * t.align;
    if (lk == 0)
        stored(r, start, cnt * one, one);
    else if (lk == 1)
        stored(r, start, cnt * n, n);
    else
        stored(r, start, (cnt * n + 7) / 8, (n + 7) / 8);
    sx::cover(ins == 0 ? "DC" : "DS");
}
// several operands: bit lengths are packed, the others aligned
static void several()
{
    static const char* OP[] = { "XL.(N)'1'", "BL.(N)'1,1'", "F'1'", "C'AB'", "XL(N)'1'", "(D)H'1'", "(D)FL.(N)'1'", "(D)D" };
    unsigned k1 = sx::choose("first", 8), k2 = sx::choose("second", 8), k3 = sx::choose("third", 8);
    int n = sx::any<int8_t>("n"), d = sx::any<int8_t>("d");
    sx::assume((n >= 1) & (n <= 31) & (d >= 0) & (d <= 7));
    bool dc = k1 != 7 && k2 != 7 && k3 != 7;
    std::string st = std::string(dc ? "A DC " : "A DS ") + OP[k1] + "," + OP[k2] + "," + OP[k3];
    sx::note("statement", st);
    run r(HEAD + st + "\n" + TAIL, symbols(n, d));
    int bits = 0, start = 8, len = 0;
    const unsigned ks[] = { k1, k2, k3 };
    for (int i = 0; i < 3; ++i)
    {
        auto al = [&](int b) {
            if (i == 0)
                start = b / 8;
            bits = (bits + b - 1) / b * b;
        };
        int l;
        switch (ks[i])
        {
            case 0: bits += n; l = (n + 7) / 8; if (i == 0) start = 1; break;
            case 1: bits += 2 * n; l = (n + 7) / 8; if (i == 0) start = 1; break;
            case 2: al(32); bits += 32; l = 4; break;
            case 3: al(8); bits += 16; l = 2; break;
            case 4: al(8); bits += 8 * n; l = n; break;
            case 5: al(16); bits += 16 * d; l = 2; break;
            case 6: bits += n * d; l = (n + 7) / 8; if (i == 0) start = 1; break;
            default: al(64); bits += 64 * d; l = 8; break;
        }
        if (i == 0)
            len = l;
    }
    sx::check(r.errors() == (ks[0] == 6 || ks[1] == 6 || ks[2] == 6 ? r.errors() : 0), "a valid data definition is not reported");
    if (n > 8 * 8)
        return;
    stored(r, start, (bits + 7) / 8, len);
    sx::cover("several operands");
}
static bool dig(char c) { return (c >= '0') & (c <= '9'); }
// the values of a constant
static void values()
{
    unsigned k = sx::choose("kind", 6), n = sx::choose("characters", NC) + 1;
    static const char* TY[] = { "X", "B", "P", "Z", "F", "C" };
    static const char* SET[] = { "0A9,G -", "01,2 B", "1,.+-A", "1,.+-A", "1,.+-EUA" };
    static const char* CH[] = { "A", ",", " ", "''", "&&", "\xC3\xA9", "\xE2\x82\xAC" };
    std::string s;
    for (unsigned i = 0; i < n; ++i)
        if (k == 5)
            s += CH[sx::choose("c", 7)];
        else
            s += SET[k][sx::choose("c", strlen(SET[k]))];
    sx::note("value", s);
    run r(HEAD + "A DC " + TY[k] + "'" + s + "'\n" + TAIL + (k == 2 || k == 3 ? "SC EQU S'A\nIN EQU I'A\n" : ""), symbols(0, 0));
    bool ok = true;
    int bytes = 0, first = -1, scale = 0;
    if (k == 5)
        bytes = first = (int)n; // every element is one character
    else
        for (size_t p = 0; p <= s.size();)
        {
            size_t e = s.find(',', p);
            if (e == s.npos)
                e = s.size();
            std::string v = s.substr(p, e - p);
            p = e + 1;
            int digits = 0, l = 0;
            size_t i = 0;
            if (k < 2)
            {
                for (char c : v)
                    if (c == ' ')
                        continue;
                    else if (k == 0 ? dig(c) || (c >= 'A' && c <= 'F') : c == '0' || c == '1')
                        ++digits;
                    else
                        ok = false;
                l = k == 0 ? (digits + 1) / 2 : (digits + 7) / 8;
            }
            else
            {
                if (i < v.size() && (v[i] == '+' || v[i] == '-' || (k == 4 && v[i] == 'U')))
                    ++i;
                int dots = 0;
                for (; i < v.size() && (dig(v[i]) || v[i] == '.'); ++i)
                {
                    v[i] == '.' ? ++dots : ++digits;
                    if (first < 0 && dots && v[i] != '.')
                        ++scale;
                }
                if (dots > 1)
                    ok = false;
                if (k == 4 && i < v.size() && v[i] == 'E')
                {
                    ++i;
                    int ed = 0;
                    if (i < v.size() && (v[i] == '+' || v[i] == '-'))
                        ++i;
                    for (; i < v.size() && dig(v[i]); ++i)
                        ++ed;
                    if (!ed)
                        ok = false;
                }
                if (i != v.size())
                    ok = false;
                l = k == 2 ? digits / 2 + 1 : k == 3 ? digits : 4;
            }
            if (!digits)
                ok = false;
            bytes += l;
            if (first < 0)
                first = l;
        }
    if (!ok)
    {
        sx::check(r.errors() > 0, "an invalid value is reported");
        sx::cover("invalid value");
        return;
    }
    sx::check(r.errors() == 0, "a valid value is not reported");
    stored(r, k == 4 ? 4 : 1, bytes, first);
    if (k == 2 || k == 3)
    {
        auto S = r.abs("SC"), I = r.abs("IN");
        sx::check(S && *S == scale, "scale attribute of a decimal constant");
        sx::check(I && *I == (k == 2 ? 2 * first - scale - 1 : first - scale), "integer attribute of a decimal constant");
    }
    sx::cover("values");
}
// type, scale and integer attributes
static void attributes()
{
    unsigned k = sx::choose("kind", 7);
    static const char* TY[] = { "H", "F", "FD", "E", "D", "L", "FL3" };
    static const int LEN[] = { 2, 4, 8, 4, 8, 16, 3 };
    static const int LO[] = { -187, -187, -187, 0, 0, 0, -187 }, HI[] = { 346, 346, 346, 5, 13, 27, 346 };
    bool ex = sx::choose("exponent", 2);
    int n = sx::any<int>("n");
    std::string st = std::string("A DC ") + TY[k] + (ex ? "E(N)" : "S(N)") + "'1'";
    sx::note("statement", st);
    run r(HEAD + st + "\n" + TAIL + "SC EQU S'A\nIN EQU I'A\n", symbols(n, 0));
    bool ok = ex ? (n >= -85) & (n <= 75) : (n >= LO[k]) & (n <= HI[k]);
    if (!ok)
    {
        sx::check(r.errors() > 0, "an invalid modifier is reported");
        sx::cover("invalid modifier");
        return;
    }
    sx::check(r.errors() == 0, "a valid modifier is not reported");
    stored(r, k == 6 ? 1 : LEN[k] == 16 ? 8 : LEN[k], LEN[k], LEN[k]);
    auto S = r.abs("SC"), I = r.abs("IN");
    int sc = ex ? 0 : n;
    sx::check(S && *S == sc, "scale attribute");
    int in = k < 3 || k == 6 ? 8 * LEN[k] - sc - 1 : 2 * (LEN[k] - 1) - sc - (LEN[k] > 8 ? 2 : 0);
    sx::check(I && *I == in, "integer attribute");
    sx::cover("attributes");
}
extern "C" void sx_setup()
{
    std::vector<std::string> w;
    for (auto& t : T)
        w.push_back(HEAD + "A DC (D)" + t.t + "L(N)" + t.nom + "\n" + TAIL + "A2 DS " + t.t + "L.(N)\nA3 DS (D)" + t.t + t.nom + "\nN EQU 3\nD EQU 1\n");
    w.push_back(HEAD + "A DC XL.(N)'1',FS(N)'1',FE(N)'1',BL.(N)'1,1',F'1',C'AB',(D)H'1'\n" + TAIL + "SC EQU S'A\nIN EQU I'A\nN EQU 2\nD EQU 2\nX DC X'1 2,3'\nP DC P'1.-+'\nW DC F'U.E,-1'\n");
    setup(w);
}
extern "C" void sx_main()
{
    switch (sx::choose("form", 4))
    {
        case 0: return types();
        case 1: return several();
        case 2: return values();
        default: return attributes();
    }
}
