// Harness API of the symbolic-execution engine (see DESIGN.md, "Engine").
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>

extern "C" {
// n fresh symbolic bytes written to p
void __sx_symbolic(void* p, size_t n, const char* name);
void __sx_assume(bool c);
void __sx_assert(bool c, const char* what);
void __sx_cover(const char* label);
// in: print into the replay/sample record
void __sx_note(const char* key, const char* data, size_t n);
// true while replaying concretely
bool __sx_replaying();
// constrain v to its present value; the other values are explored on other paths
uint64_t __sx_fix(uint64_t v);
// stop this path quietly (counts as explored)
void __sx_end_path();
// whether the value carries a symbolic term on this path (diagnostics only)
bool __sx_is_symbolic(uint64_t v);

// the harness
void sx_setup(); // concrete set-up, run once before symbolic exploration
void sx_main(); // run once per path
}

namespace sx {
inline void assume(bool c) { __sx_assume(c); }
inline void check(bool c, const char* what) { __sx_assert(c, what); }
inline void cover(const char* l) { __sx_cover(l); }
template<class T>
inline T any(const char* name)
{
    T t;
    __sx_symbolic(&t, sizeof(T), name);
    return t;
}
// integer in [lo, hi]; one symbolic byte when it fits
inline uint8_t byte_in(const char* name, unsigned lo, unsigned hi)
{
    uint8_t v = any<uint8_t>(name);
    __sx_assume((v >= lo) & (v <= hi));
    return v;
}
// one of n choices, enumerated by the solver: returns a concrete value on every path
inline unsigned choose(const char* name, unsigned n)
{
    if (n <= 1)
        return 0;
    uint8_t v = any<uint8_t>(name);
    __sx_assume(v < n);
    v = (uint8_t)__sx_fix(v);
    return v;
}
// a character from the set (symbolic, not enumerated)
inline char one_of(const char* name, const char* set)
{
    char c = any<char>(name);
    bool ok = false;
    for (const char* p = set; *p; ++p)
        ok = ok | (c == *p);
    __sx_assume(ok);
    return c;
}
inline std::string str(const char* name, size_t n)
{
    std::string s(n, '\0');
    __sx_symbolic(s.data(), n, name);
    return s;
}
inline void note(const char* k, const std::string& v) { __sx_note(k, v.data(), v.size()); }
} // namespace sx
