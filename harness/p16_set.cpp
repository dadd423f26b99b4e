// P16: assignments to variable symbols: scopes, arrays, declarations.
#include "asm.h"
using namespace ah;
#ifndef NOP
#    define NOP 2
#endif
#ifndef MAXI
#    define MAXI 3
#endif
// the program: open code with a few operations, some of them calls of a macro with operations of its own
//   global: G (scalar), H (array)   local: L (scalar), M (array)   Q: global in the macro, local in open code
//   V, W, I, J: symbolic global values
enum opn { G_SET, H_SET, H_LIST, H_OMIT, L_SET, M_SET, M_COPY, Q_SET, TYPE, AGAIN, CREATED, CALL, NOPS };
static const char* const OP[] = { "&G SETA &V\n",
    "&H(&I) SETA &W\n",
    "&H(&J) SETA &V,&W\n",
    "&H(&I) SETA &V,,&W\n",
    "&L SETA &L+&V\n",
    "&M(&I) SETA &V\n",
    "&M(&J) SETA &M(&I)\n",
    "&Q SETA &W\n",
    "&G SETC 'X'\n",
    " LCLA &L\n",
    "&(G) SETA &(L)+&(H)(&J)\n",
    " INNER\n" };
static const std::string DECL = " GBLA &G,&H(3),&T(20),&C\n LCLA &L,&M(3)\n", INPUT = " GBLA &V,&W,&I,&J\n";
// what is observed at the end of a scope
static const std::string DUMP = "&T(&C) SETA &L,&M(1),&M(2),&M(3),&M(4)\n&C SETA &C+5\n";

static constexpr int NE = 8;
struct array
{
    int e[NE + 1] = {};
    int get(int k) const
    {
        int r = 0;
        for (int x = 1; x <= NE; ++x)
            r = (k == x) ? e[x] : r;
        return r;
    }
    void set(int k, int v)
    {
        for (int x = 1; x <= NE; ++x)
            e[x] = (k == x) ? v : e[x];
    }
};
struct vars_of
{
    long long L = 0, Q = 0;
    array M;
};
struct model
{
    int v, w, i, j;
    int G = 0, QG = 0;
    array H;
    std::vector<int> T;
    bool error = false;
    void step(opn o, vars_of& s, bool macro, opn inner)
    {
        switch (o)
        {
            case G_SET: G = v; break;
            case H_SET:
                if (i < 1)
                    error = true;
                else
                    H.set(i, w);
                break;
            case H_LIST:
                if (j < 1)
                    error = true;
                else
                {
                    H.set(j, v);
                    H.set(j + 1, w);
                }
                break;
            case H_OMIT:
                if (i < 1)
                    error = true;
                else
                {
                    H.set(i, v);
                    H.set(i + 2, w);
                }
                break;
            case L_SET: s.L += v; break;
            case M_SET:
                if (i < 1)
                    error = true;
                else
                    s.M.set(i, v);
                break;
            case M_COPY:
                if ((i < 1) | (j < 1))
                {
                    error = true;
                    if (j >= 1)
                        s.M.set(j, 0);
                }
                else
                    s.M.set(j, s.M.get(i));
                break;
            case Q_SET:
                if (macro)
                    QG = w;
                else
                    s.Q = w;
                break;
            case TYPE:
            case AGAIN: error = true; break;
            case CREATED:
                error |= j < 1;
                G = int(s.L + H.get(j));
                break;
            case CALL:
            {
                vars_of n;
                step(inner, n, true, inner);
                T.insert(T.end(), { (int)n.L, n.M.e[1], n.M.e[2], n.M.e[3], n.M.e[4] });
                break;
            }
            default: break;
        }
    }
};
static std::string program(const std::vector<opn>& ops, opn inner)
{
    std::string t = " MACRO\n INNER\n" + DECL + INPUT + " GBLA &Q\n" + OP[inner] + DUMP + " MEND\n" + DECL + "&C SETA 1\n";
    for (auto o : ops)
        t += OP[o];
    // the local variables of open code and the global ones are read from the context
    return t;
}
extern "C" void sx_setup()
{
    setup({ program({ G_SET, H_SET, H_LIST, H_OMIT, L_SET, M_SET, M_COPY, Q_SET, TYPE, AGAIN, CREATED, CALL }, L_SET), " LCLC &N(5)\n&N(1) SETC '&V','&W'\n&R SETC '&N(&J)'\n LCLB &B(5)\n&B(&J) SETB &V,&W\n&R SETB &B(&J)\n" });
}
template<class T>
static void far_away(const char* type, T v, T w)
{
    int i = sx::any<int>("i"), j = sx::any<int>("j");
    bool declared = sx::choose("declared", 2);
    unsigned form = sx::choose("list", 2);
    std::string t = std::string(declared ? " LCL" : " ANOP") + (declared ? std::string(type) + " &N(5)" : "") + "\n&N(&I) SET" + type + " &V" + (form ? ",&W" : "") + "\n&R SET" + type + " &N(&J)\n";
    if (type[0] == 'C')
        t = std::string(declared ? " LCLC &N(5)\n" : " ANOP\n") + "&N(&I) SETC '&V'" + (form ? ",'&W'" : "") + "\n&R SETC '&N(&J)'\n";
    ah::run r(t, [&](hc::hlasm_context& c) {
        set_var<T>(c, "V", v);
        set_var<T>(c, "W", w);
        set_var<hc::A_t>(c, "I", i);
        set_var<hc::A_t>(c, "J", j);
    });
    sx::note("codes", r.codes());
    if (i < 1)
        return sx::check(r.errors(), "a subscript below 1 is reported"), sx::cover("invalid");
    if (j < 1)
        return sx::check(r.errors(), "a subscript below 1 is reported"), sx::cover("invalid");
    sx::check(!r.errors(), "any positive subscript is valid");
    sx::check(r.var<T>("R") == (j == i ? v : form && (long long)j == i + 1ll ? w : T()), "element of an array");
    sx::cover("any subscript");
}
extern "C" void sx_main()
{
    switch (sx::choose("form", 4))
    {
        case 1: return far_away<hc::A_t>("A", sx::any<int>("v"), sx::any<int>("w"));
        case 2: return far_away<hc::B_t>("B", sx::any<uint8_t>("v") & 1, sx::any<uint8_t>("w") & 1);
        case 3: return far_away<hc::C_t>("C", sx::str("v", 1), sx::str("w", 2));
        default: break;
    }
    std::vector<opn> ops;
    bool call = false;
    for (unsigned k = 0; k < NOP; ++k)
    {
        opn o = opn(sx::choose("op", NOPS));
        call |= o == CALL;
        ops.push_back(o);
    }
    opn inner = call ? opn(sx::choose("inner", CALL)) : G_SET;
    model m;
    m.v = sx::any<int>("v");
    m.w = sx::any<int>("w");
    m.i = sx::any<int>("i");
    m.j = sx::any<int>("j");
    // the sums must not overflow
    sx::assume((m.v > -100000000) & (m.v < 100000000) & (m.w > -100000000) & (m.w < 100000000) & (m.i >= 0) & (m.i <= MAXI) & (m.j >= 0) & (m.j <= 2));
    ah::run r(program(ops, inner), [&](hc::hlasm_context& c) {
        for (auto [n, v] : { std::pair("V", m.v), std::pair("W", m.w), std::pair("I", m.i), std::pair("J", m.j) })
        {
            // known to open code and to every macro that declares it
            auto s = c.create_global_variable<hc::A_t>(c.ids().add(n), true);
            s->access_set_symbol<hc::A_t>()->set_value(v);
        }
    });
    vars_of open;
    for (auto o : ops)
        m.step(o, open, false, inner);
    sx::note("codes", r.codes());
    sx::check(!m.error == !r.errors(), "exactly the invalid assignments are reported");
    sx::check(r.var<hc::A_t>("G") == m.G, "global variable");
    sx::check(r.var<hc::A_t>("L") == (int)open.L, "local variable");
    sx::check(r.var<hc::A_t>("Q").value_or(0) == (int)open.Q, "variable that is global in a macro only");
    bool h = true, l = true;
    for (int k = 1; k <= 7; ++k)
    {
        h &= r.var<hc::A_t>("H", k - 1) == m.H.e[k];
        l &= r.var<hc::A_t>("M", k - 1) == open.M.e[k];
    }
    sx::check(h, "elements of a global array");
    sx::check(l, "elements of a local array");
    sx::check(r.var<hc::A_t>("C") == 1 + (int)m.T.size(), "number of calls");
    for (size_t k = 0; k < m.T.size(); ++k)
        sx::check(r.var<hc::A_t>("T", k) == m.T[k], "local variables of a macro");
    sx::cover(m.error ? "invalid" : call ? "macro" : "open code");
}
