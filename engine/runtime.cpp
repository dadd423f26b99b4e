// Runtime of the symbolic-execution engine: expression DAG, shadow memory, path constraints, solver, exploration loop.
// Compiled WITHOUT the pass.
#include <link.h>
#include <algorithm>
#include <array>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <cxxabi.h>
#include <execinfo.h>
#include <deque>
#include <exception>
#include <fcntl.h>
#include <malloc.h>
#include <map>
#include <poll.h>
#include <queue>
#include <set>
#include <string>
#include <sys/personality.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <typeinfo>
#include <unistd.h>
#include <unordered_map>
#include <vector>
#include <z3.h>

typedef uint8_t u8;
typedef uint32_t u32;
typedef uint64_t u64;
typedef int64_t i64;

extern "C" {
u8 __sx_page_flags[65536];
u32 __sx_args[128];
void* __sx_byval[128];
void* __sx_tag;
u32 __sx_ret[16];
void* __sx_ret_tag;
static void (*sx_setup)();
static void (*sx_main)();
}

// ------------------------------------------------------------------ the program's heap
// Separate from the engine's (and the solver's) heap, so that what the program allocates, and where, depends on its
// path only. Freed blocks are poisoned, each block has a canary behind it.
static int inEngine = 1;
static int sxDepth = 0; // > 1: instrumented library code called by the engine itself
struct G
{
    int o = inEngine;
    G()
    {
        inEngine = 1;
        ++sxDepth;
    }
    ~G()
    {
        inEngine = o;
        --sxDepth;
    }
};
struct Inner // an entry point used by another one
{
    Inner() { --sxDepth; }
    ~Inner() { ++sxDepth; }
};
namespace {
char* const PBASE = (char*)0x100000000000ull;
const size_t PSIZE = 1ull << 31;
char* pTop = nullptr;
struct FreeB
{
    FreeB* next;
};
FreeB* freeL[4096];
void heapFailure(const char*);
void pHeapFail(const char* m)
{
    inEngine = 1;
    heapFailure(m);
}
struct Hdr
{
    u64 size; // requested
    u64 magic;
};
const u64 LIVE_M = 0x4c4956454c495645ull, FREE_M = 0x4652454546524545ull, CANARY = 0xabababababababab;
size_t cls(size_t n) { return (n + sizeof(Hdr) + 8 + 15) / 16; }
bool inProg(const void* p) { return (char*)p >= PBASE && (char*)p < PBASE + PSIZE; }
void clearShadow(u64 a, u64 n);
void* pAlloc(size_t n)
{
    size_t c = cls(n);
    char* b;
    if (c < 4096 && freeL[c])
    {
        b = (char*)freeL[c];
        freeL[c] = freeL[c]->next;
    }
    else
    {
        if (!pTop)
        {
            if (mmap(PBASE, PSIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != PBASE)
                abort();
            pTop = PBASE;
        }
        if (n > PSIZE / 2 || pTop + c * 16 > PBASE + PSIZE)
            return nullptr;
        b = pTop;
        pTop += c * 16;
    }
    auto* h = (Hdr*)b;
    h->size = n;
    h->magic = LIVE_M;
    char* u = b + sizeof(Hdr);
    clearShadow((u64)u, n);
    memcpy(u + n, &CANARY, 8);
    return u;
}
void pFree(void* p)
{
    auto* h = (Hdr*)((char*)p - sizeof(Hdr));
    if (h->magic != LIVE_M)
        return pHeapFail(h->magic == FREE_M ? "double free" : "invalid free");
    u64 c;
    memcpy(&c, (char*)p + h->size, 8);
    if (c != CANARY)
        return pHeapFail("heap block overrun");
    h->magic = FREE_M;
    memset(p, 0xdd, h->size);
    size_t k = cls(h->size);
    if (k < 4096)
    {
        auto* f = (FreeB*)((char*)p - sizeof(Hdr));
        f->next = freeL[k]; // overwrites size only
        freeL[k] = f;
    }
}
} // namespace
void* operator new(size_t n)
{
    void* p = inEngine ? malloc(n) : pAlloc(n);
    if (!p)
        throw std::bad_alloc();
    return p;
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return inEngine ? malloc(n) : pAlloc(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return inEngine ? malloc(n) : pAlloc(n); }
void operator delete(void* p) noexcept
{
    if (inProg(p))
        pFree(p);
    else
        free(p);
}
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { operator delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { operator delete(p); }

// hash that does not look at the content, so that symbolic strings can be keys of the real code's hash tables
namespace std {
size_t _Hash_bytes(const void*, size_t len, size_t seed) { return len * 0x9E3779B97F4A7C15ull; }
} // namespace std

namespace {

// ------------------------------------------------------------------ expressions
enum Kind : u8
{
    CONST,
    VAR,
    ADD,
    SUB,
    MUL,
    UDIV,
    SDIV,
    UREM,
    SREM,
    SHL,
    LSHR,
    ASHR,
    AND,
    OR,
    XOR,
    EQ,
    ULT,
    ULE,
    SLT,
    SLE,
    ZEXT,
    SEXT,
    EXTRACT, // k = low bit
    CONCAT, // a high, b low
    ITE,
    WIDE, // k = index into wides
};
const int NV = 256;
struct Deps
{
    u64 w[4] = { 0, 0, 0, 0 };
    void set(unsigned i) { w[i >> 6] |= 1ull << (i & 63); }
    bool get(unsigned i) const { return w[i >> 6] >> (i & 63) & 1; }
    void orr(const Deps& o)
    {
        for (int i = 0; i < 4; ++i)
            w[i] |= o.w[i];
    }
    bool meets(const Deps& o) const { return (w[0] & o.w[0]) | (w[1] & o.w[1]) | (w[2] & o.w[2]) | (w[3] & o.w[3]); }
    int count() const
    {
        return __builtin_popcountll(w[0]) + __builtin_popcountll(w[1]) + __builtin_popcountll(w[2])
            + __builtin_popcountll(w[3]);
    }
    int first() const
    {
        for (int i = 0; i < 4; ++i)
            if (w[i])
                return i * 64 + __builtin_ctzll(w[i]);
        return -1;
    }
};
struct Node
{
    Kind kind;
    u8 width;
    u32 a, b, c;
    u64 k;
    u64 cv; // value under the current concrete assignment
    u64 lo, hi; // unsigned interval that contains the value under every assignment
    Deps deps;
};
struct Key
{
    Kind kind;
    u8 width;
    u32 a, b, c;
    u64 k;
    bool operator==(const Key& o) const
    {
        return kind == o.kind && width == o.width && a == o.a && b == o.b && c == o.c && k == o.k;
    }
};
struct KeyH
{
    size_t operator()(const Key& x) const
    {
        u64 h = x.kind * 31 + x.width;
        auto mix = [&](u64 v) { h = (h ^ v) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; };
        mix(x.a);
        mix(x.b);
        mix(x.c);
        mix(x.k);
        return h;
    }
};
std::vector<Node> N(1);
std::unordered_map<Key, u32, KeyH> cons;
struct WideN
{
    std::vector<u32> bytes; // 8-bit node per byte (CONST nodes allowed)
};
std::vector<WideN> wides;

inline u64 mask(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline i64 sext(u64 v, unsigned w)
{
    if (w >= 64)
        return (i64)v;
    return (i64)(v << (64 - w)) >> (64 - w);
}
u64 evalOp(Kind k, unsigned w, u64 a, u64 b, u64 c, u64 kk, unsigned wa, unsigned wb)
{
    u64 m = mask(w);
    switch (k)
    {
        case ADD: return (a + b) & m;
        case SUB: return (a - b) & m;
        case MUL: return (a * b) & m;
        case UDIV: return b ? (a / b) & m : m;
        case UREM: return b ? (a % b) & m : a;
        case SDIV: {
            i64 x = sext(a, w), y = sext(b, w);
            if (!y)
                return (x < 0 ? 1 : m) & m;
            if (y == -1)
                return (0 - (u64)x) & m;
            return (u64)(x / y) & m;
        }
        case SREM: {
            i64 x = sext(a, w), y = sext(b, w);
            if (!y)
                return a;
            if (y == -1)
                return 0;
            return (u64)(x % y) & m;
        }
        case SHL: return b >= w ? 0 : (a << b) & m;
        case LSHR: return b >= w ? 0 : a >> b;
        case ASHR: return (u64)(sext(a, w) >> (b >= w ? 63 : b)) & m;
        case AND: return a & b;
        case OR: return a | b;
        case XOR: return a ^ b;
        case EQ: return a == b;
        case ULT: return a < b;
        case ULE: return a <= b;
        case SLT: return sext(a, wa) < sext(b, wa);
        case SLE: return sext(a, wa) <= sext(b, wa);
        case ZEXT: return a;
        case SEXT: return (u64)sext(a, wa) & m;
        case EXTRACT: return (a >> kk) & m;
        case CONCAT: return ((a << wb) | b) & m;
        case ITE: return a ? b : c;
        default: return 0;
    }
}

void interval(Node& n)
{
    u64 m = mask(n.width);
    n.lo = 0;
    n.hi = m;
    if (n.kind == CONST)
    {
        n.lo = n.hi = n.k;
        return;
    }
    if (!n.a)
        return;
    const Node &A = N[n.a], &B = N[n.b], &C = N[n.c];
    switch (n.kind)
    {
        case ADD:
            if (A.hi <= m - B.hi)
            {
                n.lo = A.lo + B.lo;
                n.hi = A.hi + B.hi;
            }
            else if (B.kind == CONST && A.lo >= 0 - B.k + (n.width < 64 ? m + 1 : 0))
            {
                // every value wraps: subtraction of a constant
                u64 sub = (0 - B.k) & m;
                n.lo = A.lo - sub;
                n.hi = A.hi - sub;
            }
            break;
        case MUL:
            if (A.hi == 0 || B.hi <= m / A.hi)
            {
                n.lo = A.lo * B.lo;
                n.hi = A.hi * B.hi;
            }
            break;
        case UDIV:
            if (B.kind == CONST && B.k)
            {
                n.lo = A.lo / B.k;
                n.hi = A.hi / B.k;
            }
            break;
        case UREM:
            if (B.kind == CONST && B.k)
                n.hi = std::min(A.hi, B.k - 1);
            break;
        case SHL:
            if (B.kind == CONST && B.k < n.width && A.hi <= (m >> B.k))
            {
                n.lo = A.lo << B.k;
                n.hi = A.hi << B.k;
            }
            break;
        case LSHR:
            if (B.kind == CONST && B.k < n.width)
            {
                n.lo = A.lo >> B.k;
                n.hi = A.hi >> B.k;
            }
            break;
        case AND: n.hi = std::min(A.hi, B.hi); break;
        case OR: {
            n.lo = std::max(A.lo, B.lo);
            u64 h = A.hi | B.hi;
            for (int i = 1; i < 64; i *= 2)
                h |= h >> i;
            n.hi = h;
            break;
        }
        case XOR: {
            u64 h = A.hi | B.hi;
            for (int i = 1; i < 64; i *= 2)
                h |= h >> i;
            n.hi = h;
            break;
        }
        case ZEXT:
            n.lo = A.lo;
            n.hi = A.hi;
            break;
        case SEXT:
            if (A.hi <= mask(A.width) / 2)
            {
                n.lo = A.lo;
                n.hi = A.hi;
            }
            break;
        case EXTRACT:
            if ((A.hi >> n.k) <= m)
            {
                n.lo = A.lo >> n.k;
                n.hi = A.hi >> n.k;
            }
            break;
        case CONCAT:
            n.lo = (A.lo << B.width) | B.lo;
            n.hi = (A.hi << B.width) | B.hi;
            break;
        case ITE:
            n.lo = std::min(B.lo, C.lo);
            n.hi = std::max(B.hi, C.hi);
            break;
        default: break;
    }
}

u32 kc(unsigned w, u64 v);
bool engineBuild = false; // building terms for a query, not for the program
u32 raw(Kind kind, unsigned w, u32 a, u32 b, u32 c, u64 k)
{
    Key key { kind, (u8)w, a, b, c, k };
    auto it = cons.find(key);
    if (it != cons.end())
    {
        u32 id = it->second;
        if (!engineBuild && kind != CONST && kind != VAR && N[id].kind == kind)
        {
            // as if it were built now: what a term looks like must not depend on what the solver was asked before
            interval(N[id]);
            if (N[id].lo == N[id].hi)
                return kc(w, N[id].lo);
        }
        return id;
    }
    Node n;
    n.kind = kind;
    n.width = w;
    n.a = a;
    n.b = b;
    n.c = c;
    n.k = k;
    if (kind == CONST)
        n.cv = k;
    else if (kind != VAR)
    {
        if (a)
            n.deps.orr(N[a].deps);
        if (b)
            n.deps.orr(N[b].deps);
        if (c)
            n.deps.orr(N[c].deps);
        n.cv = evalOp(kind, w, a ? N[a].cv : 0, b ? N[b].cv : 0, c ? N[c].cv : 0, k, a ? N[a].width : 0, b ? N[b].width : 0);
    }
    interval(n);
    u32 id = N.size();
    if (n.lo == n.hi && kind != CONST)
        id = kc(w, n.lo);
    else
        N.push_back(n);
    cons.emplace(key, id);
    return id;
}
u32 kc(unsigned w, u64 v) { return raw(CONST, w, 0, 0, 0, v & mask(w)); }
inline bool isC(u32 x) { return N[x].kind == CONST; }
u32 mk(Kind kind, unsigned w, u32 a, u32 b = 0, u32 c = 0, u64 k = 0);
u32 notb(u32 a) { return mk(XOR, 1, a, kc(1, 1)); }

// number of bits the value is the sign extension of
unsigned signedWidth(u32 a)
{
    const Node& n = N[a];
    if (n.kind == SEXT)
        return N[n.a].width;
    if (n.kind == ZEXT)
        return N[n.a].width + 1;
    if (n.kind == CONST)
    {
        i64 v = sext(n.k, n.width);
        return 65 - (v < 0 ? (~v ? __builtin_clzll(~v) : 64) : (v ? __builtin_clzll(v) : 64));
    }
    return n.width;
}

u32 mk(Kind kind, unsigned w, u32 a, u32 b, u32 c, u64 k)
{
    // a term whose interval has shrunk to one value (the path condition fixes it) is that value
    for (u32* x : { &a, &b, &c })
        if (*x && N[*x].kind != CONST && N[*x].lo == N[*x].hi)
            *x = kc(N[*x].width, N[*x].lo);
    bool allC = isC(a) && (!b || isC(b)) && (!c || isC(c));
    if (allC)
        return kc(w, evalOp(kind, w, N[a].cv, b ? N[b].cv : 0, c ? N[c].cv : 0, k, N[a].width, b ? N[b].width : 0));
    u64 m = mask(w);
    if (w == 1)
        switch (kind) // one-bit arithmetic is logic
        {
            case ADD:
            case SUB: kind = XOR; break;
            case MUL: kind = AND; break;
            case SHL:
            case LSHR: kind = AND, b = notb(b); break;
            case ASHR: return a;
            default: break;
        }
    if ((b && kind <= SLE && N[a].width != N[b].width) || (kind == ITE && N[a].width != 1))
    {
        fprintf(stderr, "sx: widths %u and %u in operation %d\n", N[a].width, N[b].width, (int)kind);
        abort();
    }
    // arithmetic on sign-extended values is done in no more bits than it needs
    if (w > 1 && (kind == MUL || kind == SDIV || kind == SREM || ((kind == ADD || kind == SUB) && !isC(a) && !isC(b))))
    {
        unsigned wa = signedWidth(a), wb = signedWidth(b), n = kind == MUL ? wa + wb : std::max(wa, wb) + 1;
        if (n < w)
        {
            u32 x = mk(EXTRACT, n, a), y = mk(EXTRACT, n, b);
            return mk(SEXT, w, mk(kind, n, x, y));
        }
    }
    // commutative: constant on the right
    switch (kind)
    {
        case ADD:
        case MUL:
        case AND:
        case OR:
        case XOR:
        case EQ:
            if (isC(a))
                std::swap(a, b);
            else if (!isC(b) && a > b)
                std::swap(a, b);
            break;
        default:
            break;
    }
    switch (kind)
    {
        case ADD:
            if (isC(b))
            {
                if (N[b].k == 0)
                    return a;
                if (N[a].kind == ADD && isC(N[a].b))
                    return mk(ADD, w, N[a].a, kc(w, N[N[a].b].k + N[b].k));
            }
            break;
        case SUB:
            if (a == b)
                return kc(w, 0);
            if (isC(b))
                return mk(ADD, w, a, kc(w, 0 - N[b].k));
            break;
        case MUL:
            if (isC(b))
            {
                if (N[b].k == 0)
                    return b;
                if (N[b].k == 1)
                    return a;
                if ((N[b].k & (N[b].k - 1)) == 0)
                    return mk(SHL, w, a, kc(w, __builtin_ctzll(N[b].k)));
            }
            break;
        case AND:
            if (a == b)
                return a;
            if (isC(b))
            {
                if (N[b].k == 0)
                    return b;
                if (N[b].k == m)
                    return a;
                u64 kb = N[b].k;
                if (N[a].kind == AND && isC(N[a].b))
                    return mk(AND, w, N[a].a, kc(w, N[N[a].b].k & kb));
                // and with low mask of a zext narrower than mask
                if (N[a].kind == ZEXT && (mask(N[N[a].a].width) & ~kb) == 0)
                    return a;
                // low-bit mask -> zext(extract)
                if ((kb & (kb + 1)) == 0)
                {
                    unsigned lw = 64 - __builtin_clzll(kb);
                    return mk(ZEXT, w, mk(EXTRACT, lw, a, 0, 0, 0));
                }
            }
            break;
        case OR:
            if (a == b)
                return a;
            if (isC(b))
            {
                if (N[b].k == 0)
                    return a;
                if (N[b].k == m)
                    return b;
            }
            break;
        case XOR:
            if (a == b)
                return kc(w, 0);
            if (isC(b))
            {
                if (N[b].k == 0)
                    return a;
                if (N[a].kind == XOR && isC(N[a].b))
                    return mk(XOR, w, N[a].a, kc(w, N[N[a].b].k ^ N[b].k));
                if (w == 1)
                {
                    // not (a<b) -> b<=a
                    Node n = N[a];
                    switch (n.kind)
                    {
                        case ULT: return mk(ULE, 1, n.b, n.a);
                        case ULE: return mk(ULT, 1, n.b, n.a);
                        case SLT: return mk(SLE, 1, n.b, n.a);
                        case SLE: return mk(SLT, 1, n.b, n.a);
                        default: break;
                    }
                }
            }
            break;
        case SHL:
        case LSHR:
            if (isC(b))
            {
                if (N[b].k == 0)
                    return a;
                if (N[b].k >= w)
                    return kc(w, 0);
                if (kind == LSHR)
                {
                    unsigned s = N[b].k;
                    return mk(ZEXT, w, mk(EXTRACT, w - s, a, 0, 0, s));
                }
                if (N[a].kind == SHL && isC(N[a].b))
                    return mk(SHL, w, N[a].a, kc(w, std::min<u64>(N[N[a].b].k + N[b].k, w)));
            }
            break;
        case ASHR:
            if (isC(b) && N[b].k == 0)
                return a;
            if (isC(b) && N[b].k < w && N[a].kind == SHL && N[a].b == b)
                return mk(SEXT, w, mk(EXTRACT, w - N[b].k, N[a].a));
            break;
        case UREM:
            if (isC(b) && N[a].hi < N[b].k)
                return a;
            break;
        case EQ:
            if (a == b)
                return kc(1, 1);
            if (N[a].hi < N[b].lo || N[b].hi < N[a].lo)
                return kc(1, 0);
            if (isC(b))
            {
                u64 kb = N[b].k;
                Node n = N[a];
                if (N[a].width == 1)
                    return kb ? a : notb(a);
                if (n.kind == ZEXT)
                {
                    unsigned iw = N[n.a].width;
                    if (kb & ~mask(iw))
                        return kc(1, 0);
                    return mk(EQ, 1, n.a, kc(iw, kb));
                }
                if (n.kind == SEXT)
                {
                    unsigned iw = N[n.a].width;
                    if (((u64)sext(kb & mask(iw), iw) & mask(n.width)) != kb)
                        return kc(1, 0);
                    return mk(EQ, 1, n.a, kc(iw, kb));
                }
                if (n.kind == CONCAT)
                {
                    unsigned lw = N[n.b].width;
                    u32 h = mk(EQ, 1, n.a, kc(N[n.a].width, kb >> lw));
                    u32 l = mk(EQ, 1, n.b, kc(lw, kb));
                    return mk(AND, 1, h, l);
                }
                if (n.kind == ADD && isC(n.b))
                    return mk(EQ, 1, n.a, kc(n.width, kb - N[n.b].k));
                if (n.kind == XOR && isC(n.b))
                    return mk(EQ, 1, n.a, kc(n.width, kb ^ N[n.b].k));
                if (n.kind == ITE)
                {
                    if (isC(n.b))
                    {
                        u32 r = mk(EQ, 1, n.c, b);
                        return N[n.b].k == kb ? mk(OR, 1, n.a, r) : mk(AND, 1, notb(n.a), r);
                    }
                    if (isC(n.c))
                    {
                        u32 r = mk(EQ, 1, n.b, b);
                        return N[n.c].k == kb ? mk(OR, 1, notb(n.a), r) : mk(AND, 1, n.a, r);
                    }
                }
            }
            else
            {
                Node na = N[a], nb = N[b];
                if (na.kind == nb.kind && (na.kind == ZEXT || na.kind == SEXT) && N[na.a].width == N[nb.a].width)
                    return mk(EQ, 1, na.a, nb.a);
            }
            break;
        case ULT:
        case ULE: {
            if (a == b)
                return kc(1, kind == ULE);
            Node na = N[a], nb = N[b];
            if (kind == ULT ? na.hi < nb.lo : na.hi <= nb.lo)
                return kc(1, 1);
            if (kind == ULT ? na.lo >= nb.hi : na.lo > nb.hi)
                return kc(1, 0);
            if (na.kind == ZEXT && isC(b))
            {
                unsigned iw = N[na.a].width;
                if (nb.k > mask(iw))
                    return kc(1, 1);
                return mk(kind, 1, na.a, kc(iw, nb.k));
            }
            if (nb.kind == ZEXT && isC(a))
            {
                unsigned iw = N[nb.a].width;
                if (na.k > mask(iw))
                    return kc(1, 0);
                return mk(kind, 1, kc(iw, na.k), nb.a);
            }
            if (na.kind == ZEXT && nb.kind == ZEXT && N[na.a].width == N[nb.a].width)
                return mk(kind, 1, na.a, nb.a);
            if (isC(b) && kind == ULT && nb.k == 0)
                return kc(1, 0);
            if (isC(a) && kind == ULE && na.k == 0)
                return kc(1, 1);
            break;
        }
        case SLT:
        case SLE: {
            if (a == b)
                return kc(1, kind == SLE);
            Node na = N[a], nb = N[b];
            {
                u64 half = mask(na.width) / 2;
                if (na.hi <= half && nb.hi <= half)
                    return mk(kind == SLT ? ULT : ULE, 1, a, b);
            }
            // zext is never negative
            if (na.kind == ZEXT && isC(b))
            {
                if (sext(nb.k, nb.width) < 0)
                    return kc(1, 0);
                return mk(kind == SLT ? ULT : ULE, 1, a, b);
            }
            if (nb.kind == ZEXT && isC(a))
            {
                if (sext(na.k, na.width) < 0)
                    return kc(1, 1);
                return mk(kind == SLT ? ULT : ULE, 1, a, b);
            }
            if (na.kind == ZEXT && nb.kind == ZEXT)
                return mk(kind == SLT ? ULT : ULE, 1, a, b);
            if (na.kind == SEXT || nb.kind == SEXT)
            {
                unsigned n = std::max(signedWidth(a), signedWidth(b));
                if (isC(b) && signedWidth(b) > signedWidth(a))
                    return kc(1, sext(nb.k, nb.width) > 0);
                if (isC(a) && signedWidth(a) > signedWidth(b))
                    return kc(1, sext(na.k, na.width) < 0);
                if (n < na.width)
                {
                    u32 x = mk(EXTRACT, n, a), y = mk(EXTRACT, n, b);
                    return mk(kind, 1, x, y);
                }
            }
            break;
        }
        case ZEXT:
            if (N[a].width == w)
                return a;
            if (N[a].kind == ZEXT)
                return mk(ZEXT, w, N[a].a);
            break;
        case SEXT:
            if (N[a].width == w)
                return a;
            if (N[a].kind == SEXT)
                return mk(SEXT, w, N[a].a);
            if (N[a].kind == ZEXT)
                return mk(ZEXT, w, N[a].a);
            break;
        case EXTRACT: {
            Node n = N[a];
            if (k == 0 && n.width == w)
                return a;
            if (n.kind == EXTRACT)
                return mk(EXTRACT, w, n.a, 0, 0, n.k + k);
            if (n.kind == ZEXT)
            {
                unsigned iw = N[n.a].width;
                if (k >= iw)
                    return kc(w, 0);
                if (k + w <= iw)
                    return mk(EXTRACT, w, n.a, 0, 0, k);
                return mk(ZEXT, w, mk(EXTRACT, iw - k, n.a, 0, 0, k));
            }
            if (n.kind == SEXT)
            {
                unsigned iw = N[n.a].width;
                if (k + w <= iw)
                    return mk(EXTRACT, w, n.a, 0, 0, k);
                if (k == 0)
                    return mk(SEXT, w, n.a);
            }
            if (n.kind == CONCAT)
            {
                unsigned lw = N[n.b].width;
                if (k + w <= lw)
                    return mk(EXTRACT, w, n.b, 0, 0, k);
                if (k >= lw)
                    return mk(EXTRACT, w, n.a, 0, 0, k - lw);
            }
            if (k == 0 && (n.kind == ADD || n.kind == AND || n.kind == OR || n.kind == XOR || n.kind == MUL || n.kind == SUB)
                && isC(n.b))
                return mk(n.kind, w, mk(EXTRACT, w, n.a), kc(w, N[n.b].k));
            if ((n.kind == AND || n.kind == OR || n.kind == XOR) && isC(n.b))
                return mk(n.kind, w, mk(EXTRACT, w, n.a, 0, 0, k), kc(w, N[n.b].k >> k));
            if (n.kind == ITE && isC(n.b) && isC(n.c))
                return mk(ITE, w, n.a, kc(w, N[n.b].k >> k), kc(w, N[n.c].k >> k));
            break;
        }
        case CONCAT: {
            if (isC(a) && N[a].k == 0)
                return mk(ZEXT, w, b);
            Node na = N[a], nb = N[b];
            if (na.kind == EXTRACT && nb.kind == EXTRACT && na.a == nb.a && na.k == nb.k + nb.width)
                return mk(EXTRACT, w, na.a, 0, 0, nb.k);
            if (na.kind == EXTRACT && na.a == b && na.k == nb.width)
                break;
            break;
        }
        case ITE:
            if (isC(a))
                return N[a].k ? b : c;
            if (b == c)
                return b;
            if (w == 1)
            {
                if (isC(b))
                    return N[b].k ? mk(OR, 1, a, c) : mk(AND, 1, notb(a), c);
                if (isC(c))
                    return N[c].k ? mk(OR, 1, notb(a), b) : mk(AND, 1, a, b);
            }
            break;
        default:
            break;
    }
    return raw(kind, w, a, b, c, k);
}

inline u32 fin(u32 id) { return isC(id) ? 0 : id; } // constant results are concrete
inline u32 nodeOf(u32 s, unsigned w, u64 v) { return s ? s : kc(w, v); }

// ------------------------------------------------------------------ run state
std::string describeInput(const std::vector<u8>& in);
struct Opt
{
    std::string replay, out, jsonOut;
    double budget = 60;
    int jobs = 8;
    u64 rlimit = 30000000;
    unsigned enumCap = 600;
    int pathTimeout = 60;
    long maxPaths = -1;
    u64 seed = 1;
    bool crashOk = false;
    size_t memMB = 3000;
    int verbose = 0;
    int trace = 0; // debugging: 1 one path with solver queries, 2 without
    std::string single;
} opt;

bool symbolicOn_ = false; // tracking enabled
#define symbolicOn (symbolicOn_ && sxDepth <= 1)
bool replaying = false;
std::vector<u8> input;
struct VarInfo
{
    u32 node;
    std::string name;
};
std::vector<u32> vars;
std::vector<std::pair<std::string, std::pair<int, int>>> varNames; // name -> [first, count)
std::vector<u32> pc;
size_t eventNo = 0, bound = 0;
u64 evHash = 1469598103934665603ull;
u64 expectHash = 0;
struct Item
{
    std::vector<u8> in;
    u32 bound;
    u64 hash;
    std::vector<u8> parent;
};
std::string outbuf; // serialized result of this path
struct Stats
{
    u64 queries = 0, sat = 0, unsat = 0, unknown = 0, quick = 0, asserts = 0, assertsSym = 0, events = 0, capHit = 0, diverged = 0,
        concretizations = 0, nodes = 0, hardFallback = 0;
    double solver = 0;
} st;
std::set<const char*> fnsTouched;
std::set<std::string> covers;
std::map<std::string, u64> assertDone;
std::vector<std::pair<std::string, std::string>> notes;
int resultFd = -1;
std::set<std::string> concretizedIn;

double now()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

// ------------------------------------------------------------------ solver
Z3_context zc;
std::vector<Z3_ast> zbv, zbo;
void zerr(Z3_context, Z3_error_code e) { fprintf(stderr, "sx: z3 error %d: %s\n", e, Z3_get_error_msg(zc, e)); abort(); }
// the context counts references: whatever is built is held (a worker lives for one path)
Z3_ast held(Z3_ast a)
{
    Z3_inc_ref(zc, a);
    return a;
}
Z3_sort bvs(unsigned w)
{
    Z3_sort r = Z3_mk_bv_sort(zc, w);
    Z3_inc_ref(zc, Z3_sort_to_ast(zc, r));
    return r;
}
Z3_ast num(unsigned w, u64 v) { return held(Z3_mk_unsigned_int64(zc, v, bvs(w))); }
Z3_ast trb(u32 x);
Z3_ast trv(u32 x)
{
    if (zbv.size() <= x)
        zbv.resize(N.size() + 64, nullptr);
    if (zbv[x])
        return zbv[x];
    Node n = N[x];
    Z3_ast r = nullptr;
    if (n.width == 1 && n.kind != VAR && n.kind != CONST && n.kind != EXTRACT)
    {
        Z3_ast one = num(1, 1), zero = num(1, 0), c = trb(x);
        r = Z3_mk_ite(zc, c, one, zero);
    }
    else
        switch (n.kind)
        {
            case CONST: r = num(n.width, n.k); break;
            case VAR: r = Z3_mk_const(zc, Z3_mk_int_symbol(zc, (int)n.k), bvs(n.width)); break;
            case ADD: r = Z3_mk_bvadd(zc, trv(n.a), trv(n.b)); break;
            case SUB: r = Z3_mk_bvsub(zc, trv(n.a), trv(n.b)); break;
            case MUL: r = Z3_mk_bvmul(zc, trv(n.a), trv(n.b)); break;
            case UDIV: r = Z3_mk_bvudiv(zc, trv(n.a), trv(n.b)); break;
            case SDIV: r = Z3_mk_bvsdiv(zc, trv(n.a), trv(n.b)); break;
            case UREM: r = Z3_mk_bvurem(zc, trv(n.a), trv(n.b)); break;
            case SREM: r = Z3_mk_bvsrem(zc, trv(n.a), trv(n.b)); break;
            case SHL: r = Z3_mk_bvshl(zc, trv(n.a), trv(n.b)); break;
            case LSHR: r = Z3_mk_bvlshr(zc, trv(n.a), trv(n.b)); break;
            case ASHR: r = Z3_mk_bvashr(zc, trv(n.a), trv(n.b)); break;
            case AND: r = Z3_mk_bvand(zc, trv(n.a), trv(n.b)); break;
            case OR: r = Z3_mk_bvor(zc, trv(n.a), trv(n.b)); break;
            case XOR: r = Z3_mk_bvxor(zc, trv(n.a), trv(n.b)); break;
            case ZEXT: r = Z3_mk_zero_ext(zc, n.width - N[n.a].width, trv(n.a)); break;
            case SEXT: r = Z3_mk_sign_ext(zc, n.width - N[n.a].width, trv(n.a)); break;
            case EXTRACT: r = Z3_mk_extract(zc, n.k + n.width - 1, n.k, trv(n.a)); break;
            case CONCAT: r = Z3_mk_concat(zc, trv(n.a), trv(n.b)); break;
            case ITE: r = Z3_mk_ite(zc, trb(n.a), trv(n.b), trv(n.c)); break;
            default: abort();
        }
    Z3_inc_ref(zc, r);
    if (zbv.size() <= x)
        zbv.resize(N.size() + 64, nullptr);
    return zbv[x] = r;
}
Z3_ast trb(u32 x)
{
    if (zbo.size() <= x)
        zbo.resize(N.size() + 64, nullptr);
    if (zbo[x])
        return zbo[x];
    Node n = N[x];
    Z3_ast r = nullptr;
    auto two = [&](Z3_ast a, Z3_ast b, bool isAnd) {
        Z3_ast l[2] = { a, b };
        return isAnd ? Z3_mk_and(zc, 2, l) : Z3_mk_or(zc, 2, l);
    };
    switch (n.kind)
    {
        case CONST: r = n.k ? Z3_mk_true(zc) : Z3_mk_false(zc); break;
        case EQ:
            if (N[n.a].width == 1)
                r = Z3_mk_iff(zc, trb(n.a), trb(n.b));
            else
                r = Z3_mk_eq(zc, trv(n.a), trv(n.b));
            break;
        case ULT: r = Z3_mk_bvult(zc, trv(n.a), trv(n.b)); break;
        case ULE: r = Z3_mk_bvule(zc, trv(n.a), trv(n.b)); break;
        case SLT: r = Z3_mk_bvslt(zc, trv(n.a), trv(n.b)); break;
        case SLE: r = Z3_mk_bvsle(zc, trv(n.a), trv(n.b)); break;
        case AND: r = two(trb(n.a), trb(n.b), true); break;
        case OR: r = two(trb(n.a), trb(n.b), false); break;
        case XOR:
            if (isC(n.b))
                r = N[n.b].k ? Z3_mk_not(zc, trb(n.a)) : trb(n.a);
            else
                r = Z3_mk_xor(zc, trb(n.a), trb(n.b));
            break;
        case ITE: r = Z3_mk_ite(zc, trb(n.a), trb(n.b), trb(n.c)); break;
        case VAR:
        case EXTRACT: r = Z3_mk_eq(zc, trv(x), num(1, 1)); break;
        default: fprintf(stderr, "sx: one-bit term of kind %d, width %u\n", n.kind, n.width); abort();
    }
    Z3_inc_ref(zc, r);
    if (zbo.size() <= x)
        zbo.resize(N.size() + 64, nullptr);
    return zbo[x] = r;
}

// evaluation under another assignment
struct Eval
{
    const std::vector<u8>& as;
    std::unordered_map<u32, u64> memo;
    u64 operator()(u32 x)
    {
        const Node& n = N[x];
        if (n.kind == CONST)
            return n.k;
        if (n.kind == VAR)
            return as[n.k];
        auto it = memo.find(x);
        if (it != memo.end())
            return it->second;
        u64 a = n.a ? (*this)(n.a) : 0;
        u64 r;
        if (n.kind == ITE)
            r = a ? (*this)(n.b) : (*this)(n.c);
        else
        {
            u64 b = n.b ? (*this)(n.b) : 0;
            r = evalOp(n.kind, n.width, a, b, 0, n.k, n.a ? N[n.a].width : 0, n.b ? N[n.b].width : 0);
        }
        memo[x] = r;
        return r;
    }
};

enum Res
{
    SAT,
    UNSAT,
    UNK
};
std::unordered_map<u64, std::pair<Res, std::vector<u8>>> qcache;

// PC (sliced) and extra: is it satisfiable?  On SAT, 'model' = complete assignment extending the current input.
Z3_solver s1 = nullptr, s2 = nullptr;
void initZ3()
{
    Z3_global_param_set("verbose", "0");
    Z3_config c = Z3_mk_config();
    Z3_set_param_value(c, "model", "true");
    zc = Z3_mk_context_rc(c);
    Z3_del_config(c);
    Z3_set_error_handler(zc, zerr);
    s1 = Z3_mk_simple_solver(zc);
    Z3_solver_inc_ref(zc, s1);
    Z3_params p = Z3_mk_params(zc);
    Z3_params_inc_ref(zc, p);
    Z3_params_set_uint(zc, p, Z3_mk_string_symbol(zc, "rlimit"), 2000000);
    Z3_solver_set_params(zc, s1, p);
    Z3_params_dec_ref(zc, p);
}
std::string show(u32 x, int depth);
std::string show(u32 x) { return show(x, 12); }
Res query(const std::vector<u32>& extra, std::vector<u8>& model)
{
    Deps d;
    for (u32 e : extra)
        d.orr(N[e].deps);
    std::vector<u32> cs;
    std::vector<char> used(pc.size(), 0);
    bool ch = true;
    while (ch)
    {
        ch = false;
        for (size_t i = 0; i < pc.size(); ++i)
            if (!used[i] && N[pc[i]].deps.meets(d))
            {
                used[i] = 1;
                d.orr(N[pc[i]].deps);
                ch = true;
            }
    }
    for (size_t i = 0; i < pc.size(); ++i)
        if (used[i])
            cs.push_back(pc[i]);
    for (u32 e : extra)
    {
        if (isC(e))
        {
            if (!N[e].k)
                return UNSAT;
        }
        else
            cs.push_back(e);
    }
    std::sort(cs.begin(), cs.end());
    cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
    u64 h = 14695981039346656037ull;
    for (u32 c : cs)
        h = (h ^ c) * 1099511628211ull;
    if (auto it = qcache.find(h); it != qcache.end())
    {
        model = input;
        if (it->second.first == SAT)
            for (unsigned v = 0; v < vars.size(); ++v)
                if (d.get(v))
                    model[v] = it->second.second[v];
        return it->second.first;
    }
    ++st.queries;
    double t0 = now();
    model = input;
    model.resize(std::max(model.size(), vars.size()), 0);
    Res r = UNK;
    // a satisfying value of a single byte is found faster by evaluation; "unsat" is always the solver's word
    if (d.count() == 1)
    {
        int v = d.first();
        u8 old = model[v];
        for (int x = 0; x < 256 && r == UNK; ++x)
        {
            model[v] = (u8)(old + x);
            Eval ev { model, {} };
            bool ok = true;
            for (auto it = cs.rbegin(); it != cs.rend(); ++it)
                if (!ev(*it))
                {
                    ok = false;
                    break;
                }
            if (ok)
                r = SAT;
        }
        if (r == SAT)
            ++st.quick;
        else
            model[v] = old;
    }
    if (r == UNK)
    {
        for (int stage = 0; stage < 2 && r == UNK; ++stage)
        {
            Z3_solver s;
            if (stage == 0)
            {
                s = s1;
                Z3_solver_push(zc, s);
            }
            else
            {
                ++st.hardFallback;
                s = Z3_mk_solver_for_logic(zc, Z3_mk_string_symbol(zc, "QF_BV"));
                Z3_solver_inc_ref(zc, s);
                Z3_params p = Z3_mk_params(zc);
                Z3_params_inc_ref(zc, p);
                Z3_params_set_uint(zc, p, Z3_mk_string_symbol(zc, "rlimit"), (unsigned)opt.rlimit);
                Z3_solver_set_params(zc, s, p);
                Z3_params_dec_ref(zc, p);
            }
            for (u32 c : cs)
                Z3_solver_assert(zc, s, trb(c));
            Z3_lbool b = Z3_solver_check(zc, s);
            if (b == Z3_L_TRUE)
            {
                r = SAT;
                Z3_model m = Z3_solver_get_model(zc, s);
                Z3_model_inc_ref(zc, m);
                for (unsigned v = 0; v < vars.size(); ++v)
                    if (d.get(v))
                    {
                        Z3_ast o;
                        if (Z3_model_eval(zc, m, trv(vars[v]), true, &o))
                        {
                            Z3_inc_ref(zc, o);
                            uint64_t x = 0;
                            if (Z3_get_numeral_uint64(zc, o, &x))
                                model[v] = (u8)x;
                            Z3_dec_ref(zc, o);
                        }
                    }
                Z3_model_dec_ref(zc, m);
                // the model must satisfy the constraints under our own evaluation (checks the translation)
                Eval ev { model, {} };
                for (u32 c : cs)
                    if (!ev(c))
                    {
                        fprintf(stderr, "sx: INTERNAL: z3 model does not satisfy constraint\n");
                        abort();
                    }
            }
            else if (b == Z3_L_FALSE)
                r = UNSAT;
            if (stage == 0)
                Z3_solver_pop(zc, s, 1);
            else
                Z3_solver_dec_ref(zc, s);
        }
    }
    st.solver += now() - t0;
    if (opt.verbose >= 2 && now() - t0 > 0.5)
        fprintf(stderr, "SLOW %.1f s, result %d, %zu constraints, fallbacks %lu, last %s\n", now() - t0, (int)r, cs.size(), st.hardFallback,
            show(cs.back()).substr(0, 1500).c_str());
    if (r == SAT)
        ++st.sat;
    else if (r == UNSAT)
        ++st.unsat;
    else
    {
        ++st.unknown;
        if (opt.verbose)
            fprintf(stderr, "UNKNOWN %.1f s on path %s\n", now() - t0, describeInput(input).c_str());
    }
    qcache[h] = { r, model };
    return r;
}

// ------------------------------------------------------------------ path events
void put(std::string& b, const void* p, size_t n) { b.append((const char*)p, n); }
template<class T>
void put(std::string& b, T v)
{
    put(b, &v, sizeof v);
}
void emitItem(const std::vector<u8>& in, u32 bnd, u64 h)
{
    put<char>(outbuf, 'I');
    put<u32>(outbuf, in.size());
    put(outbuf, in.data(), in.size());
    put<u32>(outbuf, bnd);
    put<u64>(outbuf, h);
    put<u32>(outbuf, input.size());
    put(outbuf, input.data(), input.size());
}
u64 hstep(u64 h, u64 v)
{
    h = (h ^ v) * 1099511628211ull;
    h ^= h >> 31;
    return h;
}
// returns true when alternatives of this event have to be looked for
bool traceEvents = false;
std::vector<u8> parentInput;
bool beginEvent(u64 site)
{
    ++st.events;
    evHash = hstep(evHash, site);
    if (traceEvents)
    {
        void* bt[24];
        int n = backtrace(bt, 24);
        fprintf(stderr, "EV %zu site %lx hash %lx\n", eventNo, site, evHash);
        backtrace_symbols_fd(bt, n, 2);
    }
    if (eventNo + 1 == bound && evHash != expectHash && expectHash)
    {
        ++st.diverged;
        if (opt.verbose)
        {
            std::string h1, h2;
            char b[4];
            for (u8 c : input)
                snprintf(b, 4, "%02x", c), h1 += b;
            for (u8 c : parentInput)
                snprintf(b, 4, "%02x", c), h2 += b;
            fprintf(stderr, "DIVERGED at event %zu input %s parent %s\n", eventNo, h1.c_str(), h2.c_str());
        }
    }
    return eventNo >= bound;
}
void endEvent(u64 dir)
{
    evHash = hstep(evHash, dir);
    ++eventNo;
}
void addPc(u32 c)
{
    if (isC(c))
        return;
    pc.push_back(c);
    // what the path condition says about a single byte narrows the byte's interval
    const Deps& d = N[c].deps;
    if (d.count() != 1)
        return;
    int v = d.first();
    u32 vn = vars[v];
    std::vector<u8> as(input);
    as.resize(std::max<size_t>(as.size(), vars.size()));
    int lo = -1, hi = -1;
    for (u64 x = N[vn].lo; x <= N[vn].hi; ++x)
    {
        as[v] = (u8)x;
        Eval ev { as, {} };
        if (ev(c))
        {
            if (lo < 0)
                lo = x;
            hi = x;
        }
    }
    if (lo >= 0)
    {
        N[vn].lo = lo;
        N[vn].hi = hi;
    }
}
void flushAndExit(char status, const std::string& msg);

void branchEvent(u32 cond, bool taken, u64 site)
{
    if (isC(cond))
        return;
    if ((N[cond].cv != 0) != taken)
    {
        fprintf(stderr, "sx: INTERNAL: branch condition term disagrees with the execution\n");
        flushAndExit('X', "term/execution mismatch at branch");
    }
    // implied by an identical earlier constraint?
    u32 t = taken ? cond : notb(cond);
    for (u32 c : pc)
        if (c == t)
            return;
    bool look = beginEvent(site);
    if (look)
    {
        std::vector<u8> m;
        engineBuild = true;
        Res r = query({ notb(t) }, m);
        engineBuild = false;
        if (r == SAT)
            emitItem(m, eventNo + 1, evHash);
        else if (r == UNK)
            ++st.capHit;
    }
    addPc(t); // also when implied: keeps the event numbering of re-executions the same
    endEvent(taken);
}

std::string show(u32 x, int depth)
{
    static const char* nm[] = { "const", "var", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or",
        "xor", "eq", "ult", "ule", "slt", "sle", "zext", "sext", "extract", "concat", "ite", "wide" };
    const Node& n = N[x];
    char b[64];
    if (n.kind == CONST)
    {
        snprintf(b, sizeof b, "%lx", n.k);
        return b;
    }
    if (n.kind == VAR)
        return "v" + std::to_string(n.k);
    if (!depth)
        return "...";
    std::string r = std::string("(") + nm[n.kind] + std::to_string(n.width);
    if (n.kind == EXTRACT)
        r += "@" + std::to_string(n.k);
    for (u32 y : { n.a, n.b, n.c })
        if (y)
            r += " " + show(y, depth - 1);
    return r + ")";
}
void concretizeNode(u32 s, const char* fn)
{
    if (!s || isC(s))
        return;
    if (opt.verbose >= 3)
        fprintf(stderr, "concretize in %s: %s [%lx,%lx]\n", fn, show(s).c_str(), N[s].lo, N[s].hi);
    if (N[s].kind == WIDE)
    {
        std::vector<u32> b = wides[N[s].k].bytes;
        for (u32 x : b)
            concretizeNode(x, fn);
        return;
    }
    u64 v = N[s].cv;
    u32 eq = mk(EQ, 1, s, kc(N[s].width, v));
    if (isC(eq))
        return;
    for (u32 c : pc)
        if (c == eq)
            return;
    ++st.concretizations;
    if (fn)
        concretizedIn.insert(fn);
    bool look = beginEvent((u64)fn ^ 0x5555);
    if (look)
    {
        engineBuild = true;
        std::vector<u32> ex { notb(eq) };
        unsigned n = 0;
        for (;;)
        {
            std::vector<u8> m;
            Res r = query(ex, m);
            if (r == UNSAT)
                break;
            if (r == UNK || n >= opt.enumCap)
            {
                ++st.capHit;
                break;
            }
            ++n;
            Eval ev { m, {} };
            u64 nv = ev(s);
            emitItem(m, eventNo + 1, evHash);
            ex.push_back(notb(mk(EQ, 1, s, kc(N[s].width, nv))));
        }
        engineBuild = false;
    }
    addPc(eq);
    endEvent(v);
}

// ------------------------------------------------------------------ shadow memory
struct SByte
{
    u32 id; // 0: concrete
    u32 off; // byte offset within the node
};
struct SPage
{
    SByte b[4096];
    unsigned live = 0;
};
std::unordered_map<u64, SPage*> pages;
inline bool flagged(u64 addr) { return __sx_page_flags[(addr >> 12) & 0xffff]; }
SPage* pageOf(u64 addr, bool create)
{
    auto it = pages.find(addr >> 12);
    if (it != pages.end())
        return it->second;
    if (!create)
        return nullptr;
    SPage* p = (SPage*)calloc(1, sizeof(SPage));
    pages[addr >> 12] = p;
    __sx_page_flags[(addr >> 12) & 0xffff] = 1;
    __sx_page_flags[((addr >> 12) - 1) & 0xffff] = 1; // accesses that start on the page before and reach into this one
    return p;
}
u32 byteNode(u32 id, u32 off)
{
    const Node& n = N[id];
    if (n.kind == WIDE)
        return wides[n.k].bytes[off];
    if (n.width == 8 && off == 0)
        return id;
    return mk(EXTRACT, 8, id, 0, 0, (u64)off * 8);
}
// the byte's term or 0; drops shadows that no longer agree with memory (written by code without the pass)
u32 shadowByte(u64 addr)
{
    SPage* p = pageOf(addr, false);
    if (!p)
        return 0;
    SByte& s = p->b[addr & 4095];
    if (!s.id)
        return 0;
    u32 n = byteNode(s.id, s.off);
    if (N[n].cv != *(u8*)addr)
    {
        s.id = 0;
        return 0;
    }
    return isC(n) ? 0 : n;
}
void setByte(u64 addr, u32 id, u32 off)
{
    SPage* p = pageOf(addr, id != 0);
    if (!p)
        return;
    p->b[addr & 4095] = { id, off };
}
u32 loadTerm(u64 addr, unsigned size)
{
    SPage* p = pageOf(addr, false);
    // fast: whole node
    bool any = false;
    u32 first = 0;
    bool whole = true;
    for (unsigned i = 0; i < size; ++i)
    {
        u64 a = addr + i;
        SPage* q = (a >> 12) == (addr >> 12) ? p : pageOf(a, false);
        SByte s = q ? q->b[a & 4095] : SByte { 0, 0 };
        if (s.id)
            any = true;
        if (i == 0)
            first = s.id;
        if (!s.id || s.id != first || s.off != i)
            whole = false;
    }
    if (!any)
        return 0;
    if (whole && size <= 8 && N[first].kind != WIDE && N[first].width == size * 8)
    {
        u64 v = 0;
        memcpy(&v, (void*)addr, size);
        if (v == N[first].cv)
            return first;
    }
    std::vector<u32> bs(size);
    any = false;
    for (unsigned i = 0; i < size; ++i)
    {
        bs[i] = shadowByte(addr + i);
        if (bs[i])
            any = true;
    }
    if (!any)
        return 0;
    for (unsigned i = 0; i < size; ++i)
        if (!bs[i])
            bs[i] = kc(8, *(u8*)(addr + i));
    if (size <= 8)
    {
        u32 r = bs[0];
        for (unsigned i = 1; i < size; ++i)
            r = mk(CONCAT, 8 * (i + 1), bs[i], r);
        return fin(r);
    }
    wides.push_back({ bs });
    Node n {};
    n.kind = WIDE;
    n.width = 0;
    n.k = wides.size() - 1;
    n.lo = 0;
    n.hi = ~0ull;
    for (u32 b : bs)
        n.deps.orr(N[b].deps);
    N.push_back(n);
    return N.size() - 1;
}
void storeTerm(u64 addr, unsigned size, u32 sv)
{
    if (sv && isC(sv))
        sv = 0;
    for (unsigned i = 0; i < size; ++i)
    {
        if (!sv)
            setByte(addr + i, 0, 0);
        else
            setByte(addr + i, sv, i);
    }
}
bool rangeFlagged(u64 a, u64 n);
void clearShadow(u64 a, u64 n)
{
    if (!symbolicOn || !rangeFlagged(a, n))
        return;
    G g_;
    for (u64 i = 0; i < n; ++i)
        setByte(a + i, 0, 0);
}
bool rangeFlagged(u64 a, u64 n)
{
    if (!n)
        return false;
    for (u64 p = a >> 12; p <= (a + n - 1) >> 12; ++p)
        if (__sx_page_flags[p & 0xffff])
            return true;
    return false;
}
bool readMem(u64 addr, void* dst, size_t n)
{
    iovec l { dst, n }, r { (void*)addr, n };
    return process_vm_readv(getpid(), &l, 1, &r, 1, 0) == (ssize_t)n;
}

u32 loadSymAddr(u32 sa, u64 addr, unsigned size)
{
    if (size > 8 || N[sa].kind == WIDE)
    {
        concretizeNode(sa, "load-address");
        return loadTerm(addr, size);
    }
    unsigned w = size * 8;
    const Deps& d = N[sa].deps;
    if (d.count() == 1)
    {
        // table indexed by one symbolic byte: read the whole table, as an if-then-else over the byte
        int v = d.first();
        std::map<u64, std::vector<int>> groups; // value -> byte values
        std::vector<u8> as = input;
        as.resize(std::max(as.size(), vars.size()));
        bool ok = true, symContent = false;
        u64 cvv = 0;
        std::map<u64, u64> cacheA;
        // byte values allowed by the path's single-byte constraints
        for (int x = 0; x < 256 && ok; ++x)
        {
            as[v] = x;
            Eval ev { as, {} };
            bool feasible = true;
            for (u32 c : pc)
                if (N[c].deps.count() == 1 && N[c].deps.first() == v && !ev(c))
                {
                    feasible = false;
                    break;
                }
            if (!feasible)
                continue;
            u64 a = ev(sa);
            auto it = cacheA.find(a);
            if (it == cacheA.end())
            {
                u64 val = 0;
                if (!readMem(a, &val, size))
                {
                    ok = false;
                    break;
                }
                if (rangeFlagged(a, size) && loadTerm(a, size))
                    symContent = true;
                it = cacheA.emplace(a, val).first;
            }
            groups[it->second].push_back(x);
        }
        if (ok && !symContent && !groups.empty())
        {
            u32 var = vars[v];
            if (groups.size() > 16)
            {
                // many values: a decision tree over the bits of the byte (values excluded by the path take a neighbour's)
                std::vector<u32> leaf(256, 0);
                for (auto& [val, xs] : groups)
                    for (int x : xs)
                        leaf[x] = kc(w, val);
                for (int bit = 0; bit < 8; ++bit)
                {
                    u32 c = mk(EXTRACT, 1, var, 0, 0, bit);
                    std::vector<u32> up(leaf.size() / 2);
                    for (size_t i = 0; i < up.size(); ++i)
                    {
                        u32 lo = leaf[2 * i], hi = leaf[2 * i + 1];
                        up[i] = !lo ? hi : !hi || lo == hi ? lo : mk(ITE, w, c, hi, lo);
                    }
                    leaf = std::move(up);
                }
                u32 r = leaf[0];
                memcpy(&cvv, (void*)addr, size);
                if (N[r].cv == cvv)
                    return fin(r);
            }
            // largest group is the default
            auto big = std::max_element(groups.begin(), groups.end(), [](auto& l, auto& r) { return l.second.size() < r.second.size(); });
            u32 r = kc(w, big->first);
            for (auto& [val, xs] : groups)
            {
                if (val == big->first)
                    continue;
                u32 c = kc(1, 0);
                for (size_t i = 0; i < xs.size();)
                {
                    size_t j = i;
                    while (j + 1 < xs.size() && xs[j + 1] == xs[j] + 1)
                        ++j;
                    u32 t = i == j ? mk(EQ, 1, var, kc(8, xs[i]))
                                   : mk(AND, 1, mk(ULE, 1, kc(8, xs[i]), var), mk(ULE, 1, var, kc(8, xs[j])));
                    c = mk(OR, 1, c, t);
                    i = j + 1;
                }
                r = mk(ITE, w, c, kc(w, val), r);
            }
            memcpy(&cvv, (void*)addr, size);
            if (N[r].cv == cvv)
                return fin(r);
        }
        concretizeNode(sa, "load-address");
        return loadTerm(addr, size);
    }
    // table indexed by a term with a small interval
    std::vector<u32> ex;
    std::vector<u64> as;
    bool ok = true, haveTable = false;
    {
        u64 stride = 1;
        u32 x = sa;
        for (;;)
        {
            if (N[x].kind == ADD && isC(N[x].b) && stride == 1 && N[N[x].b].k % 8 == 0)
                x = N[x].a;
            else if (N[x].kind == ZEXT)
                x = N[x].a;
            else
                break;
        }
        if (N[x].kind == SHL && isC(N[x].b) && N[N[x].b].k < 12)
            stride = 1ull << N[N[x].b].k;
        if (stride > 8)
            stride = 8;
        u64 first = addr - (addr - N[sa].lo) / stride * stride;
        if ((N[sa].hi - first) / stride < 260)
        {
            haveTable = true;
            for (u64 a = first; a <= N[sa].hi && haveTable; a += stride)
            {
                u64 t;
                if (readMem(a, &t, size))
                    as.push_back(a);
                else
                    haveTable = false;
            }
            if (!haveTable)
                as.clear();
        }
    }
    // general: enumerate feasible addresses with the solver
    if (!haveTable)
    {
        engineBuild = true;
        ex.push_back(notb(mk(EQ, 1, sa, kc(64, addr))));
        as.push_back(addr);
        for (;;)
        {
            std::vector<u8> m;
            Res r = query(ex, m);
            if (r == UNSAT)
                break;
            if (r == UNK || as.size() > 64)
            {
                ok = false;
                break;
            }
            Eval ev { m, {} };
            u64 a = ev(sa);
            as.push_back(a);
            ex.push_back(notb(mk(EQ, 1, sa, kc(64, a))));
        }
        engineBuild = false;
    }
    if (ok && haveTable && as.size() > 16)
    {
        // a decision tree over the bits of the index
        u64 first = as[0], stride = as[1] - as[0];
        std::vector<u32> leaf;
        for (u64 a : as)
        {
            u64 val = 0;
            readMem(a, &val, size);
            leaf.push_back(nodeOf(rangeFlagged(a, size) ? loadTerm(a, size) : 0, w, val));
        }
        u32 off = mk(ADD, 64, sa, kc(64, 0 - first));
        for (unsigned bit = __builtin_ctzll(stride); leaf.size() > 1; ++bit)
        {
            u32 c = mk(EXTRACT, 1, off, 0, 0, bit);
            std::vector<u32> up((leaf.size() + 1) / 2);
            for (size_t i = 0; i < up.size(); ++i)
            {
                u32 lo = leaf[2 * i], hi = 2 * i + 1 < leaf.size() ? leaf[2 * i + 1] : lo;
                up[i] = lo == hi ? lo : mk(ITE, w, c, hi, lo);
            }
            leaf = std::move(up);
        }
        return fin(leaf[0]);
    }
    if (ok)
    {
        std::sort(as.begin(), as.end());
        u32 r = 0;
        for (u64 a : as)
        {
            u64 val = 0;
            if (!readMem(a, &val, size))
            {
                ok = false;
                break;
            }
            u32 t = rangeFlagged(a, size) ? loadTerm(a, size) : 0;
            u32 n = nodeOf(t, w, val);
            r = r ? mk(ITE, w, mk(EQ, 1, sa, kc(64, a)), n, r) : n;
        }
        if (ok)
            return fin(r);
    }
    concretizeNode(sa, "load-address");
    return loadTerm(addr, size);
}

} // namespace

// ------------------------------------------------------------------ called by instrumented code
#define LIVE                                                                                                           \
    if (!symbolicOn)                                                                                                   \
    return
extern "C" {

u32 __sx_load(u32 sa, u64 addr, u32 size)
{
    G g_;
    if (!symbolicOn)
        return 0;
    if (sa)
        return loadSymAddr(sa, addr, size);
    return loadTerm(addr, size);
}
void __sx_store(u32 sa, u64 addr, u32 size, u32 sv)
{
    G g_;
    LIVE;
    if (sa)
        concretizeNode(sa, "store-address");
    storeTerm(addr, size, sv);
}
void __sx_clear(u64 addr, u64 n)
{
    G g_;
    LIVE;
    for (u64 i = 0; i < n; ++i)
    {
        u32 b = shadowByte(addr + i);
        if (b)
            concretizeNode(b, "odd-access");
        setByte(addr + i, 0, 0);
    }
}
static Kind opKind(u32 op)
{
    // llvm::Instruction opcodes (LLVM 18)
    switch (op)
    {
        case 13: return ADD;
        case 15: return SUB;
        case 17: return MUL;
        case 19: return UDIV;
        case 20: return SDIV;
        case 22: return UREM;
        case 23: return SREM;
        case 25: return SHL;
        case 26: return LSHR;
        case 27: return ASHR;
        case 28: return AND;
        case 29: return OR;
        case 30: return XOR;
    }
    fprintf(stderr, "sx: opcode %u\n", op);
    abort();
}
u32 __sx_binop(u32 op, u32 w, u32 sa, u64 a, u32 sb, u64 b)
{
    G g_;
    if (!symbolicOn)
        return 0;
    return fin(mk(opKind(op), w, nodeOf(sa, w, a), nodeOf(sb, w, b)));
}
u32 __sx_icmp(u32 pred, u32 w, u32 sa, u64 a, u32 sb, u64 b)
{
    G g_;
    if (!symbolicOn)
        return 0;
    u32 x = nodeOf(sa, w, a), y = nodeOf(sb, w, b);
    u32 r;
    switch (pred)
    {
        case 32: r = mk(EQ, 1, x, y); break;
        case 33: r = notb(mk(EQ, 1, x, y)); break;
        case 34: r = mk(ULT, 1, y, x); break;
        case 35: r = mk(ULE, 1, y, x); break;
        case 36: r = mk(ULT, 1, x, y); break;
        case 37: r = mk(ULE, 1, x, y); break;
        case 38: r = mk(SLT, 1, y, x); break;
        case 39: r = mk(SLE, 1, y, x); break;
        case 40: r = mk(SLT, 1, x, y); break;
        case 41: r = mk(SLE, 1, x, y); break;
        default: abort();
    }
    return fin(r);
}
u32 __sx_cast(u32 s, u32 fb, u32 tb, u32 isS)
{
    G g_;
    if (!symbolicOn || !s)
        return 0;
    if (N[s].kind == WIDE)
    {
        const auto bs = wides[N[s].k].bytes;
        u32 r = bs[0];
        for (unsigned i = 1; i * 8 < tb; ++i)
            r = mk(CONCAT, 8 * (i + 1), bs[i], r);
        return fin(mk(EXTRACT, tb, r, 0, 0, 0));
    }
    if (tb < fb)
        return fin(mk(EXTRACT, tb, s, 0, 0, 0));
    return fin(mk(isS ? SEXT : ZEXT, tb, s));
}
u32 __sx_vec_extract(u32 s, u32 lo, u32 w)
{
    G g_;
    if (!symbolicOn || !s)
        return 0;
    if (N[s].kind == WIDE)
    {
        const auto bs = wides[N[s].k].bytes;
        u32 r = bs[lo / 8];
        for (unsigned i = 1; i * 8 < w; ++i)
            r = mk(CONCAT, 8 * (i + 1), bs[lo / 8 + i], r);
        return fin(r);
    }
    return fin(mk(EXTRACT, w, s, 0, 0, lo));
}
u32 __sx_select(u32 sc, u32 w, u32 sa, u64 a, u32 sb, u64 b)
{
    G g_;
    if (!symbolicOn)
        return 0;
    u32 x = nodeOf(sa, w, a), y = nodeOf(sb, w, b);
    return fin(mk(ITE, w, sc, x, y));
}
void __sx_branch(u32 s, bool c, const char* fn, u32)
{
    G g_;
    LIVE;
    if (!s)
        return;
    fnsTouched.insert(fn);
    branchEvent(s, c, (u64)fn);
}
void __sx_switch(u32 s, u64 v, u32 w, const u64* vals, const u32* succ, u32 n, const char* fn)
{
    G g_;
    LIVE;
    if (!s)
        return;
    fnsTouched.insert(fn);
    u32 takenSucc = 0;
    std::map<u32, u32> conds;
    u32 anyCase = kc(1, 0);
    for (u32 i = 0; i < n; ++i)
    {
        u32 e = mk(EQ, 1, s, kc(w, vals[i]));
        if (vals[i] == v)
            takenSucc = succ[i];
        auto it = conds.find(succ[i]);
        if (it == conds.end())
            conds[succ[i]] = e;
        else
            it->second = mk(OR, 1, it->second, e);
        anyCase = mk(OR, 1, anyCase, e);
    }
    // default successor: no case, or a case that goes there too
    {
        u32 d = notb(anyCase);
        auto it = conds.find(0);
        if (it == conds.end())
            conds[0] = d;
        else
            it->second = mk(OR, 1, it->second, d);
    }
    u32 t = conds[takenSucc];
    if (isC(t))
        return;
    for (u32 c : pc)
        if (c == t)
            return;
    bool look = beginEvent((u64)fn ^ (u64)vals);
    if (look)
    {
        for (auto& [sid, c] : conds)
        {
            if (sid == takenSucc || (isC(c) && !N[c].k))
                continue;
            std::vector<u8> m;
            Res r = query({ c }, m);
            if (r == SAT)
                emitItem(m, eventNo + 1, evHash);
            else if (r == UNK)
                ++st.capHit;
        }
    }
    addPc(t);
    endEvent(takenSucc);
}
void __sx_concretize(u32 s, const char* fn)
{
    G g_;
    LIVE;
    if (s)
        concretizeNode(s, fn);
}
u32 __sx_gep(u32 sb, u64 base, u32 si, u64 idx, u64 scale, u32 ib)
{
    G g_;
    if (!symbolicOn)
        return 0;
    if (!sb && !si)
        return 0;
    u32 b = nodeOf(sb, 64, base);
    u32 i;
    if (si)
    {
        i = si;
        if (ib < 64)
            i = mk(SEXT, 64, i);
        else if (ib > 64)
            i = mk(EXTRACT, 64, i);
        i = mk(MUL, 64, i, kc(64, scale));
    }
    else
        i = kc(64, idx * scale);
    return fin(mk(ADD, 64, b, i));
}
u32 __sx_intrinsic(u32 k, u32 w, u32 sa, u64 a, u32 sb, u64 b, u32 sc, u64 c)
{
    G g_;
    if (!symbolicOn)
        return 0;
    u32 x = nodeOf(sa, w, a), y = nodeOf(sb, w, b), z = nodeOf(sc, w, c);
    u32 r;
    switch (k)
    {
        case 1: r = mk(ITE, w, mk(ULT, 1, x, y), x, y); break;
        case 2: r = mk(ITE, w, mk(ULT, 1, x, y), y, x); break;
        case 3: r = mk(ITE, w, mk(SLT, 1, x, y), x, y); break;
        case 4: r = mk(ITE, w, mk(SLT, 1, x, y), y, x); break;
        case 5: r = mk(ITE, w, mk(SLT, 1, x, kc(w, 0)), mk(SUB, w, kc(w, 0), x), x); break;
        case 6: { // ctlz
            r = kc(w, w);
            for (unsigned i = 0; i < w; ++i)
                r = mk(ITE, w, mk(EXTRACT, 1, x, 0, 0, i), kc(w, w - 1 - i), r);
            break;
        }
        case 7: { // cttz
            r = kc(w, w);
            for (int i = w - 1; i >= 0; --i)
                r = mk(ITE, w, mk(EXTRACT, 1, x, 0, 0, i), kc(w, i), r);
            break;
        }
        case 8: {
            r = kc(w, 0);
            for (unsigned i = 0; i < w; ++i)
                r = mk(ADD, w, r, mk(ZEXT, w, mk(EXTRACT, 1, x, 0, 0, i)));
            break;
        }
        case 9: {
            r = mk(EXTRACT, 8, x, 0, 0, w - 8);
            for (unsigned i = 1; i < w / 8; ++i)
                r = mk(CONCAT, 8 * (i + 1), mk(EXTRACT, 8, x, 0, 0, w - 8 * (i + 1)), r);
            break;
        }
        case 10:
        case 11: {
            if (!isC(z) && w <= 32 && (w & (w - 1)) == 0)
            {
                u32 c2 = mk(CONCAT, 2 * w, x, y);
                u32 n = mk(ZEXT, 2 * w, mk(AND, w, z, kc(w, w - 1)));
                r = k == 10 ? mk(EXTRACT, w, mk(SHL, 2 * w, c2, n), 0, 0, w) : mk(EXTRACT, w, mk(LSHR, 2 * w, c2, n), 0, 0, 0);
                break;
            }
            if (!isC(z))
            {
                concretizeNode(z, "fsh");
                z = kc(w, N[z].cv);
            }
            unsigned s = N[z].k % w;
            if (k == 11)
                s = (w - s) % w;
            if (k == 11 && N[z].k % w == 0)
                r = y;
            else if (s == 0)
                r = k == 10 ? x : y;
            else
                r = mk(OR, w, mk(SHL, w, x, kc(w, s)), mk(LSHR, w, y, kc(w, w - s)));
            break;
        }
        case 12: r = mk(ITE, w, mk(ULT, 1, x, y), kc(w, 0), mk(SUB, w, x, y)); break;
        case 13: {
            u32 s = mk(ADD, w, x, y);
            r = mk(ITE, w, mk(ULT, 1, s, x), kc(w, ~0ull), s);
            break;
        }
        default: abort();
    }
    return fin(r);
}
u32 __sx_ovf(u32 k, u32 w, u32 sa, u64 a, u32 sb, u64 b)
{
    G g_;
    if (!symbolicOn)
        return 0;
    u32 x = nodeOf(sa, w, a), y = nodeOf(sb, w, b);
    if (w * 2 <= 64 || k < 4)
    {
        if (k < 4 && w == 64)
        {
            // carry/borrow logic on 64 bits
            u32 z = kc(64, 0);
            switch (k)
            {
                case 1: return fin(mk(ULT, 1, mk(ADD, w, x, y), x));
                case 3: return fin(mk(ULT, 1, x, y));
                case 0: {
                    u32 s = mk(ADD, w, x, y);
                    u32 n = mk(AND, w, mk(XOR, w, x, s), mk(XOR, w, y, s));
                    return fin(mk(SLT, 1, n, z));
                }
                default: {
                    u32 s = mk(SUB, w, x, y);
                    u32 n = mk(AND, w, mk(XOR, w, x, y), mk(XOR, w, x, s));
                    return fin(mk(SLT, 1, n, z));
                }
            }
        }
        unsigned W = std::min<unsigned>(64, w * 2);
        bool sgn = (k % 2) == 0;
        u32 X = mk(sgn ? SEXT : ZEXT, W, x), Y = mk(sgn ? SEXT : ZEXT, W, y);
        u32 r = mk(k < 2 ? ADD : k < 4 ? SUB : MUL, W, X, Y);
        u32 back = mk(sgn ? SEXT : ZEXT, W, mk(EXTRACT, w, r));
        return fin(notb(mk(EQ, 1, r, back)));
    }
    if (k == 5)
    {
        // 64-bit unsigned multiply overflow: y != 0 && x > max / y
        if (!isC(y))
            std::swap(x, y);
        if (isC(y))
        {
            if (!N[y].k)
                return 0;
            return fin(mk(ULT, 1, kc(64, ~0ull / N[y].k), x));
        }
    }
    if (k == 4 && (isC(x) || isC(y)))
    {
        if (isC(x))
            std::swap(x, y);
        i64 c = (i64)N[y].k;
        if (c == 0 || c == 1)
            return 0;
        if (c > 1)
        {
            i64 hi = INT64_MAX / c, lo = INT64_MIN / c;
            return fin(mk(OR, 1, mk(SLT, 1, kc(64, hi), x), mk(SLT, 1, x, kc(64, lo))));
        }
    }
    concretizeNode(x, "mul-overflow");
    concretizeNode(y, "mul-overflow");
    return 0;
}
void __sx_memcpy_shadow(void* d, void* s, u64 n, u32)
{
    G g_;
    if (!symbolicOn || d == s || (!rangeFlagged((u64)s, n) && !rangeFlagged((u64)d, n)))
        return;
    std::vector<SByte> tmp(n);
    for (u64 i = 0; i < n; ++i)
    {
        u64 a = (u64)s + i;
        SPage* p = pageOf(a, false);
        tmp[i] = p ? p->b[a & 4095] : SByte { 0, 0 };
    }
    for (u64 i = 0; i < n; ++i)
        setByte((u64)d + i, tmp[i].id, tmp[i].off);
}
void __sx_copy_byval(void* d, void* s, u64 n) { __sx_memcpy_shadow(d, s, n, 0); }
void __sx_memset_shadow(void* d, u32 s, u64 n, u32)
{
    G g_;
    LIVE;
    if (!s && !rangeFlagged((u64)d, n))
        return;
    for (u64 i = 0; i < n; ++i)
        setByte((u64)d + i, s, 0);
}

// ---- libc models (called with the shadow-argument protocol)
static u32 argShadow(void* self, unsigned i) { return __sx_tag == self ? __sx_args[i] : 0; }
#define ARGS(fn)                                                                                                       \
    u32 A0 = argShadow((void*)&fn, 0), A1 = argShadow((void*)&fn, 1), A2 = argShadow((void*)&fn, 2);                   \
    if (__sx_tag == (void*)&fn)                                                                                        \
        __sx_tag = nullptr;                                                                                            \
    (void)A0, (void)A1, (void)A2
static void retShadow(void* self, u32 s)
{
    __sx_ret_tag = s ? self : nullptr;
    __sx_ret[0] = s;
}

static int cmpModel(void* self, const void* a, const void* b, size_t n, bool eqOnly)
{
    const u8 *x = (const u8*)a, *y = (const u8*)b;
    if (!symbolicOn || (!rangeFlagged((u64)a, n) && !rangeFlagged((u64)b, n)))
    {
        retShadow(self, 0);
        int r = memcmp(a, b, n);
        return r < 0 ? -1 : r > 0;
    }
    std::vector<std::pair<u32, u32>> pairs;
    int tail = 0;
    for (size_t i = 0; i < n; ++i)
    {
        u32 p = shadowByte((u64)x + i), q = shadowByte((u64)y + i);
        if (!p && !q)
        {
            if (x[i] == y[i])
                continue;
            tail = x[i] < y[i] ? -1 : 1;
            break;
        }
        pairs.push_back({ nodeOf(p, 8, x[i]), nodeOf(q, 8, y[i]) });
    }
    u32 r = kc(32, (u32)tail);
    for (size_t i = pairs.size(); i-- > 0;)
    {
        auto [p, q] = pairs[i];
        u32 eq = mk(EQ, 1, p, q);
        u32 lt = eqOnly ? kc(32, 1) : mk(ITE, 32, mk(ULT, 1, p, q), kc(32, (u32)-1), kc(32, 1));
        r = mk(ITE, 32, eq, r, lt);
    }
    retShadow(self, fin(r));
    return (int)N[r].cv;
}
static inline void concI(u32 s, const char* fn)
{
    if (symbolicOn && s)
        concretizeNode(s, fn);
}
int __sx_w_memcmp(const void* a, const void* b, size_t n)
{
    G g_;
    ARGS(__sx_w_memcmp);
    concI(A0, "memcmp");
    concI(A1, "memcmp");
    concI(A2, "memcmp");
    return cmpModel((void*)&__sx_w_memcmp, a, b, n, false);
}
int __sx_w_bcmp(const void* a, const void* b, size_t n)
{
    G g_;
    ARGS(__sx_w_bcmp);
    concI(A0, "bcmp");
    concI(A1, "bcmp");
    concI(A2, "bcmp");
    return cmpModel((void*)&__sx_w_bcmp, a, b, n, true);
}
static size_t symStrlen(const char* s, const char* fn)
{
    size_t n = strlen(s);
    if (symbolicOn && rangeFlagged((u64)s, n + 1))
        for (size_t i = 0; i <= n; ++i)
            if (u32 b = shadowByte((u64)s + i))
                branchEvent(mk(EQ, 1, b, kc(8, 0)), i == n, (u64)fn);
    return n;
}
size_t __sx_w_strlen(const char* s)
{
    G g_;
    ARGS(__sx_w_strlen);
    concI(A0, "strlen");
    retShadow(nullptr, 0);
    return symStrlen(s, "strlen");
}
int __sx_w_strcmp(const char* a, const char* b)
{
    G g_;
    ARGS(__sx_w_strcmp);
    concI(A0, "strcmp");
    concI(A1, "strcmp");
    size_t n = std::min(symStrlen(a, "strcmp"), symStrlen(b, "strcmp"));
    return cmpModel((void*)&__sx_w_strcmp, a, b, n + 1, false);
}
int __sx_w_strncmp(const char* a, const char* b, size_t m)
{
    G g_;
    ARGS(__sx_w_strncmp);
    concI(A0, "strncmp");
    concI(A1, "strncmp");
    concI(A2, "strncmp");
    size_t n = 0;
    while (n < m && a[n] && b[n])
        ++n;
    if (n < m)
        ++n;
    for (size_t i = 0; i < n; ++i)
    {
        if (u32 p = shadowByte((u64)a + i))
            branchEvent(mk(EQ, 1, p, kc(8, 0)), a[i] == 0, (u64) "strncmp");
        if (u32 p = shadowByte((u64)b + i))
            branchEvent(mk(EQ, 1, p, kc(8, 0)), b[i] == 0, (u64) "strncmp");
    }
    return cmpModel((void*)&__sx_w_strncmp, a, b, n, false);
}
static const void* chrModel(const void* p, int c, u32 sc, size_t n, bool stopAtNul, const char* fn)
{
    const u8* s = (const u8*)p;
    for (size_t i = 0; i < n; ++i)
    {
        bool hit = s[i] == (u8)c;
        u32 b = symbolicOn && rangeFlagged((u64)s + i, 1) ? shadowByte((u64)s + i) : 0;
        if (b || sc)
        {
            u32 cn = sc ? mk(EXTRACT, 8, sc, 0, 0, 0) : kc(8, (u8)c);
            branchEvent(mk(EQ, 1, nodeOf(b, 8, s[i]), cn), hit, (u64)fn);
        }
        if (hit)
            return s + i;
        if (stopAtNul)
        {
            if (b)
                branchEvent(mk(EQ, 1, b, kc(8, 0)), s[i] == 0, (u64)fn);
            if (!s[i])
                return nullptr;
        }
    }
    return nullptr;
}
void* __sx_w_memchr(const void* p, int c, size_t n)
{
    G g_;
    ARGS(__sx_w_memchr);
    concI(A0, "memchr");
    concI(A2, "memchr");
    retShadow(nullptr, 0);
    if (!symbolicOn || (!A1 && !rangeFlagged((u64)p, n)))
        return (void*)memchr(p, c, n);
    return (void*)chrModel(p, c, A1, n, false, "memchr");
}
char* __sx_w_strchr(const char* p, int c)
{
    G g_;
    ARGS(__sx_w_strchr);
    concI(A0, "strchr");
    retShadow(nullptr, 0);
    if (!symbolicOn)
        return (char*)strchr(p, c);
    return (char*)chrModel(p, c, A1, (size_t)-1, true, "strchr");
}
void* __sx_w_memcpy(void* d, const void* s, size_t n)
{
    G g_;
    ARGS(__sx_w_memcpy);
    concI(A0, "memcpy");
    concI(A1, "memcpy");
    concI(A2, "memcpy");
    memcpy(d, s, n);
    Inner(), __sx_memcpy_shadow(d, (void*)s, n, 0);
    retShadow(nullptr, 0);
    return d;
}
void* __sx_w_memmove(void* d, const void* s, size_t n)
{
    G g_;
    ARGS(__sx_w_memmove);
    concI(A0, "memmove");
    concI(A1, "memmove");
    concI(A2, "memmove");
    Inner(), __sx_memcpy_shadow(d, (void*)s, n, 0);
    memmove(d, s, n);
    retShadow(nullptr, 0);
    return d;
}
void* __sx_w_memset(void* d, int c, size_t n)
{
    G g_;
    ARGS(__sx_w_memset);
    concI(A0, "memset");
    concI(A2, "memset");
    memset(d, c, n);
    Inner(), __sx_memset_shadow(d, A1 && symbolicOn ? fin(mk(EXTRACT, 8, A1, 0, 0, 0)) : 0, n, 0);
    retShadow(nullptr, 0);
    return d;
}
wchar_t* __sx_w_wmemset(wchar_t* d, wchar_t c, size_t n)
{
    G g_;
    ARGS(__sx_w_wmemset);
    concI(A0, "wmemset");
    concI(A1, "wmemset");
    concI(A2, "wmemset");
    for (size_t i = 0; i < n; ++i)
        d[i] = c;
    Inner(), __sx_memset_shadow(d, 0, n * 4, 0);
    retShadow(nullptr, 0);
    return d;
}
wchar_t* __sx_w_wmemcpy(wchar_t* d, const wchar_t* s, size_t n) { return (wchar_t*)__sx_w_memmove(d, s, n * 4); }
wchar_t* __sx_w_wmemmove(wchar_t* d, const wchar_t* s, size_t n) { return (wchar_t*)__sx_w_memmove(d, s, n * 4); }

typedef int (*ctf)(int);
static void ctypeRange(int c, u32 s, const char* fn)
{
    bool in = c >= -128 && c <= 255;
    if (s)
    {
        u32 ok = mk(AND, 1, mk(SLE, 1, kc(32, (u32)-128), s), mk(SLE, 1, s, kc(32, 255)));
        branchEvent(ok, in, (u64)fn);
    }
    if (!in && symbolicOn | replaying)
        flushAndExit('F', std::string("undefined behaviour: ") + fn + "() called with a value outside its domain");
}
static int isModel(void* self, ctf f, int c, u32 s, const char* fn)
{
    ctypeRange(c, s, fn);
    if (!symbolicOn || !s)
    {
        retShadow(self, 0);
        return (c >= -128 && c <= 255) ? f(c) != 0 : 0;
    }
    u32 r = kc(1, 0);
    for (int i = -128; i < 256;)
    {
        if (!f(i))
        {
            ++i;
            continue;
        }
        int j = i;
        while (j + 1 < 256 && f(j + 1))
            ++j;
        r = mk(OR, 1, r, mk(AND, 1, mk(SLE, 1, kc(32, (u32)i), s), mk(SLE, 1, s, kc(32, (u32)j))));
        i = j + 1;
    }
    u32 z = mk(ZEXT, 32, r);
    retShadow(self, fin(z));
    return (int)N[z].cv;
}
#define ISMODEL(name)                                                                                                  \
    int __sx_w_##name(int c)                                                                                           \
    {                                                                                                                  \
        ARGS(__sx_w_##name);                                                                                           \
        return isModel((void*)&__sx_w_##name, (ctf)&name, c, A0, #name);                                               \
    }
} // extern C
#include <cctype>
extern "C" {
ISMODEL(isalnum)
ISMODEL(isalpha)
ISMODEL(isdigit)
ISMODEL(isspace)
ISMODEL(isxdigit)
ISMODEL(isupper)
ISMODEL(islower)
ISMODEL(ispunct)
ISMODEL(isprint)
ISMODEL(isgraph)
ISMODEL(iscntrl)
static int caseModel(void* self, int c, u32 s, int lo, int hi, int delta, const char* fn)
{
    ctypeRange(c, s, fn);
    if (!symbolicOn || !s)
    {
        retShadow(self, 0);
        return c >= lo && c <= hi ? c + delta : c;
    }
    u32 in = mk(AND, 1, mk(SLE, 1, kc(32, lo), s), mk(SLE, 1, s, kc(32, hi)));
    u32 r = mk(ITE, 32, in, mk(ADD, 32, s, kc(32, (u32)delta)), s);
    retShadow(self, fin(r));
    return (int)N[r].cv;
}
int __sx_w_toupper(int c)
{
    G g_;
    ARGS(__sx_w_toupper);
    return caseModel((void*)&__sx_w_toupper, c, A0, 'a', 'z', -32, "toupper");
}
int __sx_w_tolower(int c)
{
    G g_;
    ARGS(__sx_w_tolower);
    return caseModel((void*)&__sx_w_tolower, c, A0, 'A', 'Z', 32, "tolower");
}
int __sx_w_abs(int c)
{
    G g_;
    ARGS(__sx_w_abs);
    u32 r = 0;
    if (A0 && symbolicOn)
        r = fin(mk(ITE, 32, mk(SLT, 1, A0, kc(32, 0)), mk(SUB, 32, kc(32, 0), A0), A0));
    retShadow((void*)&__sx_w_abs, r);
    return c < 0 ? (int)(0u - (unsigned)c) : c;
}
long __sx_w_labs(long c)
{
    G g_;
    ARGS(__sx_w_labs);
    u32 r = 0;
    if (A0 && symbolicOn)
        r = fin(mk(ITE, 64, mk(SLT, 1, A0, kc(64, 0)), mk(SUB, 64, kc(64, 0), A0), A0));
    retShadow((void*)&__sx_w_labs, r);
    return c < 0 ? -c : c;
}
// strtol family: the digits decide the path, the value is a term
static u64 strtoModel(void* self, const char* s, char** end, int base, bool isSigned)
{
    const char* fn = "strtol";
    const char* p = s;
    auto sb = [&](const char* q) { return symbolicOn && rangeFlagged((u64)q, 1) ? shadowByte((u64)q) : 0; };
    auto isIn = [&](const char* q, int lo, int hi) {
        bool r = (u8)*q >= lo && (u8)*q <= hi;
        if (u32 b = sb(q))
            branchEvent(mk(AND, 1, mk(ULE, 1, kc(8, lo), b), mk(ULE, 1, b, kc(8, hi))), r, (u64)fn);
        return r;
    };
    while (isIn(p, ' ', ' ') || isIn(p, 9, 13))
        ++p;
    bool neg = false;
    if (isIn(p, '-', '-'))
        neg = true, ++p;
    else if (isIn(p, '+', '+'))
        ++p;
    if (base == 0)
        base = 10;
    if (base == 16 && isIn(p, '0', '0') && (isIn(p + 1, 'x', 'x') || isIn(p + 1, 'X', 'X')))
        p += 2;
    u32 val = kc(64, 0);
    bool any = false, sym = false, over = false;
    for (;; ++p)
    {
        int off;
        if (isIn(p, '0', (u64)std::min<int>('9', '0' + base - 1)))
            off = '0';
        else if (base > 10 && isIn(p, 'a', 'a' + base - 11))
            off = 'a' - 10;
        else if (base > 10 && isIn(p, 'A', 'A' + base - 11))
            off = 'A' - 10;
        else
            break;
        any = true;
        u32 b = sb(p);
        sym |= b != 0;
        u32 d = mk(ADD, 64, mk(ZEXT, 64, nodeOf(b, 8, (u8)*p)), kc(64, (u64)-off));
        // overflow?
        u64 lim = isSigned ? (u64)INT64_MAX : ~0ull;
        u32 big = mk(ULT, 1, kc(64, lim / base), val);
        bool bigC = N[big].cv;
        if (!isC(big))
            branchEvent(big, bigC, (u64)fn);
        u32 nv = mk(ADD, 64, mk(MUL, 64, val, kc(64, base)), d);
        u32 wrap = isSigned ? mk(SLT, 1, nv, kc(64, 0)) : mk(ULT, 1, nv, d);
        bool wrapC = N[wrap].cv;
        if (!bigC && !isC(wrap))
            branchEvent(wrap, wrapC, (u64)fn);
        if (bigC || wrapC)
            over = true;
        val = nv;
    }
    if (end)
        *end = (char*)(any ? p : s);
    if (end)
        Inner(), __sx_memset_shadow(end, 0, 8, 0);
    if (over)
    {
        errno = ERANGE;
        retShadow(self, 0);
        return isSigned ? (neg ? (u64)INT64_MIN : (u64)INT64_MAX) : ~0ull;
    }
    if (neg)
        val = mk(SUB, 64, kc(64, 0), val);
    retShadow(self, sym ? fin(val) : 0);
    return N[val].cv;
}
#define STRTO(name, R, sg)                                                                                             \
    R __sx_w_##name(const char* s, char** e, int b)                                                                    \
    {                                                                                                                  \
        ARGS(__sx_w_##name);                                                                                           \
        concI(A0, #name);                                                                                    \
        concI(A2, #name);                                                                                    \
        return (R)strtoModel((void*)&__sx_w_##name, s, e, b, sg);                                                      \
    }
STRTO(strtol, long, true)
STRTO(strtoll, long long, true)
STRTO(strtoul, unsigned long, false)
STRTO(strtoull, unsigned long long, false)
STRTO(__isoc23_strtol, long, true)
STRTO(__isoc23_strtoll, long long, true)
STRTO(__isoc23_strtoul, unsigned long, false)
STRTO(__isoc23_strtoull, unsigned long long, false)

static void clearChunk(void* p)
{
    if (!symbolicOn || !p)
        return;
    size_t n = inProg(p) ? ((Hdr*)p)[-1].size : malloc_usable_size(p);
    if (rangeFlagged((u64)p, n))
        for (size_t i = 0; i < n; ++i)
            setByte((u64)p + i, 0, 0);
}
void __sx_w_free(void* p)
{
    G g_;
    ARGS(__sx_w_free);
    clearChunk(p);
    free(p);
}
void __sx_w__ZdlPv(void* p)
{
    G g_;
    ARGS(__sx_w__ZdlPv);
    clearChunk(p);
    operator delete(p);
}
void __sx_w__ZdlPvm(void* p, size_t n)
{
    G g_;
    ARGS(__sx_w__ZdlPvm);
    clearChunk(p);
    operator delete(p);
}

// ---- harness API
void __sx_symbolic(void* p, size_t n, const char* name)
{
    G g_;
    __sx_tag = nullptr;
    int first = vars.size();
    for (size_t i = 0; i < n; ++i)
    {
        size_t idx = vars.size();
        if (idx >= NV)
        {
            fprintf(stderr, "sx: too many symbolic bytes\n");
            flushAndExit('X', "too many symbolic bytes");
        }
        if (input.size() <= idx)
            input.resize(idx + 1, 0);
        ((u8*)p)[i] = input[idx];
        u32 id = 0;
        if (symbolicOn)
        {
            Key key { VAR, 8, 0, 0, 0, idx };
            Node nd {};
            nd.kind = VAR;
            nd.width = 8;
            nd.k = idx;
            nd.cv = input[idx];
            nd.deps.set(idx);
            nd.lo = 0;
            nd.hi = 255;
            id = N.size();
            N.push_back(nd);
            cons.emplace(key, id);
        }
        vars.push_back(id);
        if (symbolicOn)
            setByte((u64)p + i, id, 0);
    }
    varNames.push_back({ name, { first, (int)n } });
}
bool __sx_replaying() { return replaying; }
void __sx_assume(bool c)
{
    G g_;
    ARGS(__sx_assume);
    if (!symbolicOn)
    {
        if (!c)
            flushAndExit('A', "assumption not met");
        return;
    }
    u32 s = A0;
    if (s && N[s].width != 1)
        s = notb(mk(EQ, 1, s, kc(N[s].width, 0)));
    if (!c)
    {
        if (s && !isC(s))
        {
            bool look = beginEvent((u64) "assume");
            // always look: an input that meets the assumption on this prefix
            std::vector<u8> m;
            Res r = query({ s }, m);
            if (r == SAT)
                emitItem(m, look ? eventNo + 1 : (u32)bound, look ? evHash : 0);
            else if (r == UNK)
                ++st.capHit;
        }
        flushAndExit('A', "");
    }
    if (s && !isC(s))
    {
        for (u32 x : pc)
            if (x == s)
                return;
        beginEvent((u64) "assume");
        addPc(s);
        endEvent(1);
    }
}
void __sx_assert(bool c, const char* what)
{
    G g_;
    ARGS(__sx_assert);
    ++st.asserts;
    if (symbolicOn && A0)
    {
        u32 s = A0;
        if (N[s].width != 1)
            s = notb(mk(EQ, 1, s, kc(N[s].width, 0)));
        ++st.assertsSym;
        if (!isC(s))
            branchEvent(s, c, (u64)what);
    }
    if (!c)
        flushAndExit('F', what);
    ++assertDone[what];
}
void __sx_cover(const char* l)
{
    G g_;
    __sx_tag = nullptr;
    covers.insert(l);
}
void __sx_note(const char* k, const char* d, size_t n)
{
    G g_;
    __sx_tag = nullptr;
    notes.push_back({ k, std::string(d, n) });
}
u64 __sx_fix(u64 v)
{
    G g_;
    ARGS(__sx_fix);
    if (symbolicOn && A0)
        concretizeNode(A0, "sx::choose");
    return v;
}
bool __sx_is_symbolic(u64 v)
{
    G g_;
    ARGS(__sx_is_symbolic);
    return A0 != 0;
}
void __sx_end_path()
{
    G g_;
    __sx_tag = nullptr;
    flushAndExit('O', "");
}
} // extern C

// functions that understand the shadow-argument protocol although they are compiled without the pass
static void* aware[] = { (void*)&__sx_assume, (void*)&__sx_assert, (void*)&__sx_fix, (void*)&__sx_is_symbolic, (void*)&__sx_w_memcmp,
    (void*)&__sx_w_bcmp, (void*)&__sx_w_strlen, (void*)&__sx_w_strcmp, (void*)&__sx_w_strncmp, (void*)&__sx_w_memchr,
    (void*)&__sx_w_strchr, (void*)&__sx_w_memcpy, (void*)&__sx_w_memmove, (void*)&__sx_w_memset, (void*)&__sx_w_wmemset,
    (void*)&__sx_w_isalnum, (void*)&__sx_w_isalpha, (void*)&__sx_w_isdigit, (void*)&__sx_w_isspace, (void*)&__sx_w_isxdigit,
    (void*)&__sx_w_isupper, (void*)&__sx_w_islower, (void*)&__sx_w_ispunct, (void*)&__sx_w_isprint, (void*)&__sx_w_isgraph,
    (void*)&__sx_w_iscntrl, (void*)&__sx_w_toupper, (void*)&__sx_w_tolower, (void*)&__sx_w_abs, (void*)&__sx_w_labs,
    (void*)&__sx_w_strtol, (void*)&__sx_w_strtoll, (void*)&__sx_w_strtoul, (void*)&__sx_w_strtoull, (void*)&__sx_w___isoc23_strtol,
    (void*)&__sx_w___isoc23_strtoll, (void*)&__sx_w___isoc23_strtoul, (void*)&__sx_w___isoc23_strtoull, (void*)&__sx_w_free,
    (void*)&__sx_w__ZdlPv, (void*)&__sx_w__ZdlPvm };
static std::set<void*>* awareSet;

extern "C" void __sx_precall(void* target, u32 n, const char* fn)
{
    G g_;
    if (!symbolicOn)
    {
        __sx_tag = nullptr;
        return;
    }
    if (((u64)target & 7) == 0 && *((u64*)target - 1) == 0x53584d4147494331ull)
    {
        __sx_tag = target;
        return;
    }
    u64 magic;
    memcpy(&magic, (char*)target - 8, 8);
    if (magic == 0x53584d4147494331ull || awareSet->count(target))
    {
        __sx_tag = target;
        return;
    }
    __sx_tag = nullptr;
    for (u32 i = 0; i < n; ++i)
        if (__sx_args[i])
        {
            u32 s = __sx_args[i];
            concretizeNode(s, fn);
        }
}

// the instrumented program's text segment: [textLo, textHi)
static u64 textLo, textHi;
static void findText()
{
    dl_iterate_phdr(
        [](dl_phdr_info* i, size_t, void*) -> int {
            if (i->dlpi_name && i->dlpi_name[0])
                return 0;
            for (int k = 0; k < i->dlpi_phnum; ++k)
                if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_X))
                {
                    textLo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
                    textHi = textLo + i->dlpi_phdr[k].p_memsz;
                }
            return 1;
        },
        nullptr);
}
extern "C" void __sx_ret_check(void* ra, u32 n, const char* fn)
{
    G g_;
    if (!symbolicOn)
        return;
    if (!textHi)
        findText();
    if ((u64)ra >= textLo && (u64)ra < textHi)
        return;
    for (u32 i = 0; i < n; ++i)
        if (u32 s = __sx_ret[i])
            concretizeNode(s, fn);
    __sx_ret_tag = nullptr;
}

// ------------------------------------------------------------------ results and exploration
namespace {
bool inChild = false;
char lastStatus;
std::string lastMsg;
std::string describeInput(const std::vector<u8>& in)
{
    std::string r;
    for (auto& [n, fc] : varNames)
    {
        if (!r.empty())
            r += ' ';
        r += n + "=";
        bool printable = true;
        char b[8];
        std::string hex, txt;
        for (int i = 0; i < fc.second; ++i)
        {
            u8 c = (size_t)(fc.first + i) < in.size() ? in[fc.first + i] : 0;
            snprintf(b, sizeof b, "%02x", c);
            hex += b;
            if (c < 32 || c > 126)
                printable = false;
            txt += (char)c;
        }
        r += "0x" + hex;
        if (printable)
            r += "(\"" + txt + "\")";
    }
    for (auto& [k, v] : notes)
    {
        r += " [" + k + ": ";
        for (char c : v)
        {
            char b[8];
            if ((u8)c < 32 || (u8)c > 126 || c == '\\')
            {
                snprintf(b, sizeof b, "\\x%02x", (u8)c);
                r += b;
            }
            else
                r += c;
        }
        r += "]";
    }
    return r;
}
void puts_(std::string& b, const std::string& s)
{
    put<u32>(b, s.size());
    b += s;
}
void writeAll(int fd, const std::string& b)
{
    size_t o = 0;
    while (o < b.size())
    {
        ssize_t n = write(fd, b.data() + o, b.size() - o);
        if (n < 0)
        {
            if (errno == EINTR)
                continue;
            break;
        }
        o += n;
    }
}
volatile sig_atomic_t flushing = 0;
void flushAndExit(char status, const std::string& msg)
{
    if (!inChild)
    {
        // replay
        if (status == 'F' || status == 'C' || status == 'T' || status == 'X')
        {
            printf("REPLAY: FAIL: %s\n  input: %s\n", msg.c_str(), describeInput(input).c_str());
            fflush(stdout);
            _exit(1);
        }
        printf("REPLAY: %s %s\n  input: %s\n", status == 'A' ? "assumption not met" : "ok", msg.c_str(), describeInput(input).c_str());
        fflush(stdout);
        _exit(status == 'A' ? 3 : 0);
    }
    if (flushing)
        _exit(99);
    flushing = 1;
    symbolicOn_ = false;
    st.nodes = N.size();
    put<char>(outbuf, 'R');
    put<char>(outbuf, status);
    puts_(outbuf, msg);
    put<Stats>(outbuf, st);
    put<u32>(outbuf, input.size());
    put(outbuf, input.data(), input.size());
    puts_(outbuf, describeInput(input));
    put<u32>(outbuf, fnsTouched.size());
    for (auto* f : fnsTouched)
        put<u64>(outbuf, (u64)f);
    put<u32>(outbuf, covers.size());
    for (auto& c : covers)
        puts_(outbuf, c);
    put<u32>(outbuf, assertDone.size());
    for (auto& [k, v] : assertDone)
    {
        puts_(outbuf, k);
        put<u64>(outbuf, v);
    }
    put<u32>(outbuf, concretizedIn.size());
    for (auto& c : concretizedIn)
        puts_(outbuf, c);
    put<u32>(outbuf, pc.size());
    writeAll(resultFd, outbuf);
    _exit(0);
}
void heapFailure(const char* m)
{
    if (inChild || replaying)
        flushAndExit('C', std::string("memory error: ") + m);
    fprintf(stderr, "sx: %s outside a path\n", m);
    abort();
}
void onSignal(int sig)
{
    inEngine = 1;
    if (sig == SIGALRM)
        flushAndExit('T', "time limit of a single path exceeded");
    std::string m = std::string("terminated by ") + strsignal(sig);
    if (!lastMsg.empty())
        m += ": " + lastMsg;
    flushAndExit('C', m);
}
void onTerminate()
{
    if (auto* t = abi::__cxa_current_exception_type())
    {
        int s;
        char* d = abi::__cxa_demangle(t->name(), nullptr, nullptr, &s);
        lastMsg = std::string("uncaught exception ") + (d ? d : t->name());
        try
        {
            throw;
        }
        catch (const std::exception& e)
        {
            lastMsg += std::string(": ") + e.what();
        }
        catch (...)
        {}
    }
    inEngine = 1;
    abort();
}
void installHandlers()
{
    static char alt[1 << 17];
    stack_t ss {};
    ss.ss_sp = alt;
    ss.ss_size = sizeof alt;
    sigaltstack(&ss, nullptr);
    struct sigaction sa {};
    sa.sa_handler = onSignal;
    sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM, SIGTRAP })
        sigaction(s, &sa, nullptr);
    std::set_terminate(onTerminate);
}

struct Total
{
    Stats s;
    u64 paths = 0, completed = 0, assumeStopped = 0, crashed = 0, failed = 0, timeouts = 0, internal = 0, constraints = 0, lost = 0;
    size_t maxEvents = 0;
    std::set<std::string> fns;
    std::map<std::string, u64> covers, asserts;
    std::set<std::string> concretized;
    std::vector<std::string> samples;
    std::vector<std::vector<u8>> sampleInputs;
    std::map<std::string, std::pair<std::string, std::vector<u8>>> failures; // msg -> (description, input)
} tot;

std::string jesc(const std::string& s)
{
    std::string r;
    for (char c : s)
    {
        if (c == '"' || c == '\\')
            (r += '\\') += c;
        else if ((u8)c < 32 || (u8)c > 126)
        {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", (u8)c);
            r += b;
        }
        else
            r += c;
    }
    return r;
}
std::string demangle(const std::string& n)
{
    int s;
    char* d = abi::__cxa_demangle(n.c_str(), nullptr, nullptr, &s);
    std::string r = s == 0 ? d : n;
    free(d);
    return r;
}

struct ItemCmp
{
    bool operator()(const Item& a, const Item& b) const { return a.bound > b.bound; }
};

void explore()
{
    std::priority_queue<Item, std::vector<Item>, ItemCmp> work;
    std::vector<u8> init;
    if (opt.trace)
        for (size_t i = 0; i + 1 < opt.single.size(); i += 2)
            init.push_back((u8)strtoul(opt.single.substr(i, 2).c_str(), 0, 16));
    work.push({ init, opt.trace == 2 ? 1000000u : 0u, 0, {} });
    struct Child
    {
        pid_t pid;
        std::string buf;
        double t0;
        Item item;
    };
    std::map<int, Child> ch;
    double t0 = now();
    bool stop = false;
    std::set<std::string> done; // hash set of inputs? (paths are distinct by construction)
    while ((!work.empty() && !stop) || !ch.empty())
    {
        double el = now() - t0;
        if (el > opt.budget || (opt.maxPaths >= 0 && (long)tot.paths >= opt.maxPaths))
            stop = true;
        while (!stop && !work.empty() && (int)ch.size() < opt.jobs)
        {
            Item it = work.top();
            work.pop();
            int fd[2];
            if (pipe(fd))
                abort();
            fflush(stdout);
            fflush(stderr);
            pid_t pid = fork();
            if (pid == 0)
            {
                close(fd[0]);
                for (auto& [f, c] : ch)
                    close(f);
                prctl(PR_SET_PDEATHSIG, SIGKILL);
                resultFd = fd[1];
                inChild = true;
                rlimit rl { (opt.memMB << 20) + PSIZE, (opt.memMB << 20) + PSIZE };
                setrlimit(RLIMIT_AS, &rl);
                installHandlers();
                alarm(opt.pathTimeout);
                input = it.in;
                bound = it.bound;
                expectHash = it.hash;
                parentInput = it.parent;
                traceEvents = opt.trace;
                symbolicOn_ = true;
                if (!opt.verbose)
                {
                    int dn = open("/dev/null", O_WRONLY);
                    dup2(dn, 1);
                    if (opt.verbose < 1)
                        dup2(dn, 2);
                }
                inEngine = 0;
                sx_main();
                inEngine = 1;
                flushAndExit('O', "");
            }
            if (pid < 0)
            {
                perror("fork");
                abort();
            }
            close(fd[1]);
            ch[fd[0]] = { pid, "", now(), it };
            ++tot.paths;
        }
        if (ch.empty())
            break;
        std::vector<pollfd> pf;
        for (auto& [f, c] : ch)
            pf.push_back({ f, POLLIN, 0 });
        poll(pf.data(), pf.size(), 200);
        for (auto& p : pf)
        {
            if (!(p.revents & (POLLIN | POLLHUP | POLLERR)))
                continue;
            auto& c = ch[p.fd];
            char b[65536];
            ssize_t n = read(p.fd, b, sizeof b);
            if (n > 0)
            {
                c.buf.append(b, n);
                continue;
            }
            if (n < 0 && errno == EINTR)
                continue;
            close(p.fd);
            int ws;
            waitpid(c.pid, &ws, 0);
            // decode
            const std::string& B = c.buf;
            size_t o = 0;
            bool gotR = false;
            struct Truncated {};
            auto need = [&](size_t n) { if (o + n > B.size()) throw Truncated(); };
            auto g32 = [&] { need(4); u32 v; memcpy(&v, &B[o], 4); o += 4; return v; };
            auto g64 = [&] { need(8); u64 v; memcpy(&v, &B[o], 8); o += 8; return v; };
            auto gs = [&] { u32 k = g32(); need(k); std::string s = B.substr(o, k); o += k; return s; };
            try
            {
            while (o < B.size())
            {
                char k = B[o++];
                if (k == 'I')
                {
                    u32 sz = g32();
                    need(sz);
                    Item it;
                    it.in.assign(B.begin() + o, B.begin() + o + sz);
                    o += sz;
                    it.bound = g32();
                    it.hash = g64();
                    sz = g32();
                    need(sz);
                    it.parent.assign(B.begin() + o, B.begin() + o + sz);
                    o += sz;
                    work.push(std::move(it));
                }
                else if (k == 'R')
                {
                    gotR = true;
                    char status = B[o++];
                    std::string msg = gs();
                    Stats s;
                    need(sizeof s);
                    memcpy(&s, &B[o], sizeof s);
                    o += sizeof s;
                    u32 isz = g32();
                    need(isz);
                    std::vector<u8> in(B.begin() + o, B.begin() + o + isz);
                    o += isz;
                    std::string desc = gs();
                    u32 nf = g32();
                    for (u32 i = 0; i < nf; ++i)
                        tot.fns.insert((const char*)g64());
                    u32 nc = g32();
                    for (u32 i = 0; i < nc; ++i)
                        ++tot.covers[gs()];
                    u32 na = g32();
                    for (u32 i = 0; i < na; ++i)
                    {
                        std::string a = gs();
                        tot.asserts[a] += g64();
                    }
                    u32 nz = g32();
                    for (u32 i = 0; i < nz; ++i)
                        tot.concretized.insert(gs());
                    u32 npc = g32();
                    tot.constraints += npc;
                    auto& T = tot.s;
                    T.queries += s.queries;
                    T.sat += s.sat;
                    T.unsat += s.unsat;
                    T.unknown += s.unknown;
                    T.quick += s.quick;
                    T.asserts += s.asserts;
                    T.assertsSym += s.assertsSym;
                    T.events += s.events;
                    T.capHit += s.capHit;
                    T.diverged += s.diverged;
                    T.concretizations += s.concretizations;
                    T.nodes += s.nodes;
                    T.hardFallback += s.hardFallback;
                    T.solver += s.solver;
                    tot.maxEvents = std::max<size_t>(tot.maxEvents, s.events);
                    if (opt.verbose >= 2)
                        fprintf(stderr, "path %c %s | %s | ev=%lu q=%lu\n", status, msg.c_str(), desc.c_str(), s.events, s.queries);
                    switch (status)
                    {
                        case 'O':
                            ++tot.completed;
                            if (tot.samples.size() < 3 || (tot.completed & (tot.completed - 1)) == 0)
                            {
                                tot.samples.push_back(desc);
                                tot.sampleInputs.push_back(in);
                            }
                            break;
                        case 'A': ++tot.assumeStopped; break;
                        case 'X': ++tot.internal; fprintf(stderr, "sx internal: %s | %s\n", msg.c_str(), desc.c_str()); break;
                        case 'T': ++tot.timeouts; [[fallthrough]];
                        default:
                            if (status == 'C')
                                ++tot.crashed;
                            else if (status == 'F')
                                ++tot.failed;
                            tot.failures.emplace(msg, std::make_pair(desc, in));
                            if (tot.failures.size() >= 20)
                                stop = true;
                    }
                }
                else
                {
                    ++tot.internal;
                    break;
                }
            }
            }
            catch (const Truncated&)
            {
                gotR = false;
                fprintf(stderr, "sx: truncated result (%zu of %zu bytes)\n", o, B.size());
            }
            if (!gotR)
            {
                ++tot.lost;
                fprintf(stderr, "sx: path lost (wait status %x), bound %u\n", ws, c.item.bound);
            }
            ch.erase(p.fd);
        }
    }
    bool complete = work.empty() && !stop && !tot.s.capHit && !tot.s.unknown && !tot.lost && !tot.internal && !tot.timeouts && !tot.s.diverged;
    FILE* f = opt.jsonOut.empty() ? stdout : fopen(opt.jsonOut.c_str(), "w");
    fprintf(f,
        "{\"paths\": %lu, \"completed\": %lu, \"assume_stopped\": %lu, \"failed\": %lu, \"crashed\": %lu, \"timeouts\": %lu, \"internal\": "
        "%lu, \"lost\": %lu, \"pending\": %zu, \"exhaustive\": %s,\n",
        tot.paths, tot.completed, tot.assumeStopped, tot.failed, tot.crashed, tot.timeouts, tot.internal, tot.lost, work.size(),
        complete ? "true" : "false");
    fprintf(f,
        " \"branch_events\": %lu, \"max_events_on_a_path\": %zu, \"path_constraints\": %lu, \"queries\": %lu, \"sat\": %lu, \"unsat\": %lu, "
        "\"unknown\": %lu, \"sat_by_evaluation\": %lu, \"bitblast_fallback\": %lu, \"solver_s\": %.3f, \"assertions\": %lu, \"symbolic_assertions\": %lu, \"cap_hits\": %lu, \"diverged\": %lu, "
        "\"concretizations\": %lu, \"terms\": %lu, \"wall_s\": %.3f,\n",
        tot.s.events, tot.maxEvents, tot.constraints, tot.s.queries, tot.s.sat, tot.s.unsat, tot.s.unknown, tot.s.quick, tot.s.hardFallback,
        tot.s.solver, tot.s.asserts, tot.s.assertsSym, tot.s.capHit, tot.s.diverged, tot.s.concretizations, tot.s.nodes, now() - t0);
    fprintf(f, " \"covers\": {");
    bool first = true;
    for (auto& [k, v] : tot.covers)
    {
        fprintf(f, "%s\"%s\": %lu", first ? "" : ", ", jesc(k).c_str(), v);
        first = false;
    }
    fprintf(f, "},\n \"assertion_sites\": {");
    first = true;
    for (auto& [k, v] : tot.asserts)
    {
        fprintf(f, "%s\"%s\": %lu", first ? "" : ", ", jesc(k).c_str(), v);
        first = false;
    }
    fprintf(f, "},\n \"functions\": [");
    first = true;
    for (auto& k : tot.fns)
    {
        fprintf(f, "%s\"%s\"", first ? "" : ", ", jesc(demangle(k)).c_str());
        first = false;
    }
    fprintf(f, "],\n \"concretized_in\": [");
    first = true;
    for (auto& k : tot.concretized)
    {
        fprintf(f, "%s\"%s\"", first ? "" : ", ", jesc(demangle(k)).c_str());
        first = false;
    }
    fprintf(f, "],\n \"samples\": [");
    first = true;
    for (size_t i = 0; i < tot.samples.size() && i < 12; ++i)
    {
        fprintf(f, "%s\"%s\"", first ? "" : ", ", jesc(tot.samples[i]).c_str());
        first = false;
    }
    fprintf(f, "],\n \"sample_inputs\": [");
    for (size_t i = 0; i < tot.sampleInputs.size() && i < 12; ++i)
    {
        fprintf(f, "%s\"", i ? ", " : "");
        for (u8 c : tot.sampleInputs[i])
            fprintf(f, "%02x", c);
        fprintf(f, "\"");
    }
    fprintf(f, "],\n \"failures\": [");
    first = true;
    for (auto& [m, di] : tot.failures)
    {
        std::string hex;
        char b[4];
        for (u8 c : di.second)
        {
            snprintf(b, sizeof b, "%02x", c);
            hex += b;
        }
        fprintf(f, "%s{\"what\": \"%s\", \"input\": \"%s\", \"bytes\": \"%s\"}", first ? "" : ", ", jesc(m).c_str(),
            jesc(di.first).c_str(), hex.c_str());
        first = false;
    }
    fprintf(f, "]}\n");
    if (f != stdout)
        fclose(f);
}
} // namespace

extern "C" int __sx_rt_main(int argc, char** argv, void (*su)(), void (*mn)())
{
    sx_setup = su;
    sx_main = mn;
    // address-space randomisation would make pointer-keyed containers differ between runs
    if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE))
    {
        personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE);
        if (!getenv("SX_REEXEC"))
        {
            setenv("SX_REEXEC", "1", 1);
            execv("/proc/self/exe", argv);
        }
    }
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto nx = [&] { return std::string(argv[++i]); };
        if (a == "--replay")
            opt.replay = nx();
        else if (a == "--json")
            opt.jsonOut = nx();
        else if (a == "--budget")
            opt.budget = atof(nx().c_str());
        else if (a == "--jobs")
            opt.jobs = atoi(nx().c_str());
        else if (a == "--rlimit")
            opt.rlimit = strtoull(nx().c_str(), 0, 10);
        else if (a == "--path-timeout")
            opt.pathTimeout = atoi(nx().c_str());
        else if (a == "--max-paths")
            opt.maxPaths = atol(nx().c_str());
        else if (a == "--trace" || a == "--trace-nolook")
        {
            opt.trace = a == "--trace" ? 1 : 2;
            opt.single = nx();
            opt.maxPaths = 1;
            opt.verbose = 1;
        }
        else if (a == "-v")
            ++opt.verbose;
    }
    awareSet = new std::set<void*>(std::begin(aware), std::end(aware));
    if (!opt.replay.empty())
    {
        // hex string: run once, concretely
        for (size_t i = 0; i + 1 < opt.replay.size(); i += 2)
            input.push_back((u8)strtoul(opt.replay.substr(i, 2).c_str(), 0, 16));
        replaying = true;
        installHandlers();
        alarm(opt.pathTimeout);
        inEngine = 0;
        sx_setup();
        sx_main();
        inEngine = 1;
        flushAndExit('O', "");
    }
    initZ3();
    inEngine = 0;
    sx_setup();
    inEngine = 1;
    cons.reserve(1 << 12);
    explore();
    return 0;
}
