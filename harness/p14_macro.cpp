// P14: macro operands: sublists, &SYSLIST, number and count attributes.
#include "asm.h"
using namespace ah;
#ifndef NS
#    define NS 4
#endif
static constexpr unsigned MAXOP = 3, MAXSUB = 3;

// ---- reference: structure of an operand
struct node
{
    bool given = false, list = false;
    std::string value;
    std::vector<node> sub;
};
// position behind the operand that starts at b, npos if it is not balanced; stops at a comma or closing parenthesis of its level
static size_t scan(const std::string& s, size_t b)
{
    int depth = 0;
    for (; b < s.size(); ++b)
    {
        if (s[b] == '\'')
        {
            b = s.find('\'', b + 1);
            if (b == std::string::npos)
                return b;
        }
        else if (s[b] == '(')
            ++depth;
        else if (s[b] == ')')
        {
            if (!depth)
                return b;
            --depth;
        }
        else if (s[b] == ',' && !depth)
            return b;
    }
    return depth ? std::string::npos : b;
}
static node operand(const std::string& s);
static bool split(const std::string& s, std::vector<node>& out) // list of operands separated by commas
{
    for (size_t b = 0;;)
    {
        size_t e = scan(s, b);
        if (e == std::string::npos || (e < s.size() && s[e] == ')'))
            return false;
        out.push_back(operand(s.substr(b, e - b)));
        if (e == s.size())
            return true;
        b = e + 1;
    }
}
static node operand(const std::string& s)
{
    node n;
    n.value = s;
    n.given = !s.empty();
    if (s.size() >= 2 && s.front() == '(' && s.back() == ')')
    {
        std::vector<node> sub;
        if (split(s.substr(1, s.size() - 2), sub))
        {
            n.list = true;
            n.sub = std::move(sub);
        }
    }
    return n;
}
static bool balanced(const std::string& s)
{
    std::vector<node> t;
    return split(s, t);
}
static const node NONE;
static const node& sub(const node& n, unsigned i)
{
    if (n.list)
        return i <= n.sub.size() ? n.sub[i - 1] : NONE;
    return i == 1 ? n : NONE;
}
static int number(const node& n) { return !n.given ? 0 : !n.list ? 1 : n.value == "()" ? -1 : (int)n.sub.size(); }

// ---- the macro that records what it sees
static std::string MACRO;
static std::string idx(unsigned i, unsigned j, unsigned k)
{
    std::string r = std::to_string(i);
    if (j)
        r += "," + std::to_string(j);
    if (k)
        r += "," + std::to_string(k);
    return r;
}
static void build()
{
    std::string c, n, k;
    for (unsigned i = 1; i <= MAXOP; ++i)
        for (unsigned j = 0; j <= MAXSUB; ++j)
            for (unsigned l = 0; l <= (j == 1 ? 2 : 0); ++l)
            {
                std::string s = "&SYSLIST(" + idx(i, j, l) + ")";
                c += (c.empty() ? "'" : ",'") + s + "'";
                n += (n.empty() ? "N'" : ",N'") + s;
                k += (k.empty() ? "K'" : ",K'") + s;
            }
    std::string P;
    for (unsigned j = 1; j <= MAXSUB; ++j)
        P += ",'&P1(" + std::to_string(j) + ")'";
    MACRO = std::string(" MACRO\n&LBL M &P1,&K=(X,Y)\n GBLC &C(60),&P(10),&Q(10)\n GBLA &N(60),&CN(60),&S(10)\n");
    auto line = [&](std::string t) {
        // continued from column 72
        std::string out;
        size_t width = 71;
        while (t.size() > width)
        {
            out += t.substr(0, width) + "X\n" + std::string(15, ' ');
            t = t.substr(width);
            width = 71 - 15;
        }
        MACRO += out + t + "\n";
    };
    line("&C(1) SETC " + c);
    line("&N(1) SETA " + n);
    line("&CN(1) SETA " + k);
    line("&P(1) SETC '&P1'" + P + ",'&LBL','&SYSLIST(0)'");
    line("&Q(1) SETC '&K','&K(1)','&K(2)','&K(3)'");
    line("&S(1) SETA N'&SYSLIST,N'&P1,K'&P1,N'&K,K'&K,N'&K(1)");
    MACRO += " MEND\n";
}
static std::string program(const std::string& call) { return MACRO + " GBLC &C(60),&P(10),&Q(10)\n GBLA &N(60),&CN(60),&S(10)\n" + call; }

static void expect(run& r, const std::vector<node>& ops, const node& key)
{
    unsigned w = 1;
    for (unsigned i = 1; i <= MAXOP; ++i)
        for (unsigned j = 0; j <= MAXSUB; ++j)
            for (unsigned l = 0; l <= (j == 1 ? 2 : 0); ++l, ++w)
            {
                const node* n = i <= ops.size() ? &ops[i - 1] : &NONE;
                if (j)
                    n = &sub(*n, j);
                if (l)
                    n = &sub(*n, l);
                auto v = r.var<hc::C_t>("C", w - 1);
                sx::note("element", idx(i, j, l));
                sx::note("value", v.value_or("?"));
                sx::note("expected", n->value);
                sx::check(v == n->value, "element of &SYSLIST");
                auto m = r.var<hc::A_t>("N", w - 1);
                sx::note("number", std::to_string(m.value_or(-9)));
                sx::check(number(*n) == -1 ? m == 0 || m == 1 : m == number(*n), "number attribute");
                sx::check(r.var<hc::A_t>("CN", w - 1) == (int)n->value.size(), "count attribute");
            }
    const node& p = ops.size() ? ops[0] : NONE;
    sx::check(r.var<hc::C_t>("P", 0) == p.value, "positional parameter");
    for (unsigned j = 1; j <= MAXSUB; ++j)
        sx::check(r.var<hc::C_t>("P", j) == sub(p, j).value, "element of a positional parameter");
    sx::check(r.var<hc::C_t>("P", MAXSUB + 1) == "LB" && r.var<hc::C_t>("P", MAXSUB + 2) == "LB", "name parameter");
    sx::check(r.var<hc::C_t>("Q", 0) == key.value, "keyword parameter");
    for (unsigned j = 1; j <= 3; ++j)
        sx::check(r.var<hc::C_t>("Q", j) == sub(key, j).value, "element of a keyword parameter");
    sx::check(r.var<hc::A_t>("S", 0) == (int)ops.size(), "number of positional operands");
    if (number(p) != -1)
        sx::check(r.var<hc::A_t>("S", 1) == number(p), "number attribute of a parameter");
    sx::check(r.var<hc::A_t>("S", 2) == (int)p.value.size(), "count attribute of a parameter");
    if (number(key) != -1)
        sx::check(r.var<hc::A_t>("S", 3) == number(key), "number attribute of a keyword parameter");
    sx::check(r.var<hc::A_t>("S", 4) == (int)key.value.size(), "count attribute of a keyword parameter");
}
static std::string any_text(const char* what, unsigned n)
{
    std::string s;
    for (unsigned i = 0; i < n; ++i)
    {
        char c = sx::any<char>(what);
        sx::assume((c == 'A') | (c == ',') | (c == '(') | (c == ')') | (c == '\''));
        s += c;
    }
    return s;
}
extern "C" void sx_setup()
{
    build();
    setup({ program("LB M A,(B,'C''(D'),K=(A,B)\nLB M (A)A(B),A'B',,(A,),((A))'A'\n M\n"), program("&X SETC '(A,B)'\nLB M &X,K=&X.A\n") });
}
extern "C" void sx_main()
{
    switch (sx::choose("form", 8))
    {
        case 0: // written in the statement
        {
            auto s = any_text("c", NS);
            std::vector<node> ops;
            bool ok = split(s, ops);
            run r(program("LB M " + s + "\n"));
            sx::note("codes", r.codes());
            if (!ok)
                return sx::cover("not balanced");
            sx::check(!r.errors(), "valid operands are not reported");
            expect(r, ops, operand("(X,Y)"));
            sx::cover("operands");
            break;
        }
        case 1: // the elements of a sublist
        {
            auto s = "(" + any_text("c", NS) + ")";
            std::vector<node> ops;
            bool ok = split(s, ops);
            run r(program("LB M B," + s + "\n"));
            if (!ok)
                return sx::cover("not balanced");
            ops.insert(ops.begin(), operand("B"));
            sx::note("codes", r.codes());
            sx::check(!r.errors(), "valid operands are not reported");
            expect(r, ops, operand("(X,Y)"));
            sx::cover("sublist");
            break;
        }
        case 2: // the value of a variable
        {
            bool list = sx::choose("list", 2);
            auto s = any_text("c", NS);
            if (list)
                s = "(" + s + ")";
            if (!balanced(s))
                sx::cover("unbalanced value");
            run r(program("LB M &&X\n").replace(program("").size() + 5, 2, "&"), [&](hc::hlasm_context& c) { set_var<hc::C_t>(c, "X", s); });
            sx::note("codes", r.codes());
            sx::check(!r.errors(), "valid operands are not reported");
            expect(r, { operand(s) }, operand("(X,Y)"));
            sx::cover("variable");
            break;
        }
        case 3: // keyword operand
        {
            auto s = any_text("c", NS);
            std::vector<node> ops;
            bool ok = split(s, ops) && ops.size() == 1;
            run r(program("LB M K=" + s + ",B\n"));
            sx::note("codes", r.codes());
            if (!ok)
                return sx::cover("not balanced");
            sx::check(!r.errors(), "valid operands are not reported");
            expect(r, { operand("B") }, ops[0]);
            sx::cover("keyword");
            break;
        }
        case 4: // keyword operand from variable, text around it
        {
            auto s = any_text("c", NS);
            bool list = sx::choose("list", 2);
            std::string t = list ? "(A," + s + ")" : s;
            run r(program(list ? "LB M B,K=(A,&X)\n" : "LB M B,K=&X\n"), [&](hc::hlasm_context& c) { set_var<hc::C_t>(c, "X", s); });
            sx::note("codes", r.codes());
            sx::check(!r.errors(), "valid operands are not reported");
            sx::check(r.var<hc::C_t>("Q", 0) == t, "keyword parameter");
            if (!list)
                expect(r, { operand("B") }, operand(t));
            sx::cover("keyword variable");
            break;
        }
        case 5: // passed on by another macro
        {
            auto s = any_text("c", NS);
            std::vector<node> ops;
            bool ok = split(s, ops) && ops.size() == 1;
            run r(program(" MACRO\n OUT &P2\nLB M &P2,K=&P2\n MEND\n OUT " + s + "\n"));
            sx::note("codes", r.codes());
            if (!ok)
                return sx::cover("not balanced");
            sx::check(!r.errors(), "valid operands are not reported");
            expect(r, ops, ops[0]);
            sx::cover("passed on");
            break;
        }
        case 6: // which operand becomes which parameter
        {
            static const char* const PROTO[] = { "&P1,&P2,&K1=D1,&K2=", "&K2=,&P1,&K1=D1,&P2", "&P1,,&P2,&K1=D1,&K2=" };
            unsigned p = sx::choose("prototype", 3);
            unsigned count = 1 + sx::choose("operands", 4);
            std::string call, pos[4], k1 = "D1", k2, k1s;
            unsigned np = 0;
            bool twice = false, u1 = false, u2 = false;
            for (unsigned i = 0; i < count; ++i)
            {
                call += i ? "," : "";
                char c = sx::any<char>("v");
                sx::assume((c >= 'A') & (c <= 'Z'));
                std::string v { c, char('1' + i) };
                switch (sx::choose("kind", 4))
                {
                    case 0: call += v; pos[np++] = v; break;
                    case 1: np++; break;
                    case 2: call += "K1=" + v; twice |= u1; u1 = true; k1 = v; break;
                    case 3: call += "k2="; twice |= u2; u2 = true; k2 = ""; break;
                }
            }
            if (twice)
                return;
            // a single empty operand is no operand
            run r(std::string(" MACRO\n Z ") + PROTO[p] + "\n GBLC &P(10)\n GBLA &N\n&P(1) SETC '&P1','&P2','&K1','&K2','&SYSLIST(1)','&SYSLIST(4)'\n&N SETA N'&SYSLIST\n MEND\n GBLC &P(10)\n GBLA &N\n Z "
                + call + "\n");
            sx::note("call", call);
            sx::note("codes", r.codes());
            sx::check(!r.errors(), "valid operands are not reported");
            sx::check(r.var<hc::C_t>("P", 0) == pos[0] && r.var<hc::C_t>("P", 1) == pos[p == 2 ? 2 : 1], "positional parameters");
            sx::check(r.var<hc::C_t>("P", 2) == k1 && r.var<hc::C_t>("P", 3) == k2, "keyword parameters and their defaults");
            sx::check(r.var<hc::C_t>("P", 4) == pos[0] && r.var<hc::C_t>("P", 5) == pos[3], "elements of &SYSLIST");
            if (call.size())
                sx::check(r.var<hc::A_t>("N", {}) == (int)np, "number of positional operands");
            sx::cover("parameters");
            break;
        }
        case 7: // characters outside ASCII
        {
            unsigned cp = sx::any<uint16_t>("char");
            sx::assume((cp >= 0xa1) & (cp <= 0x2fff));
            std::string u = cp < 0x800 ? std::string { char(0xc0 | cp >> 6), char(0x80 | cp & 63) }
                                       : std::string { char(0xe0 | cp >> 12), char(0x80 | cp >> 6 & 63), char(0x80 | cp & 63) };
            unsigned form = sx::choose("place", 3);
            std::string t = form == 0 ? "'A" + u + "'" : form == 1 ? "('" + u + "'," + u + ")" : u;
            run r(program(form < 2 ? "LB M " + t + "\n" : "LB M &X\n"), [&](hc::hlasm_context& c) { set_var<hc::C_t>(c, "X", u); });
            sx::note("codes", r.codes());
            sx::check(!r.errors(), "valid operands are not reported");
            sx::check(r.var<hc::C_t>("P", 0) == t, "positional parameter");
            sx::check(r.var<hc::A_t>("S", 2) == (form == 0 ? 4 : form == 1 ? 7 : 1), "count attribute counts characters");
            sx::cover("characters");
            break;
        }
    }
}
