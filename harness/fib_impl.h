// The scheduler behind fib.h (harness side).
#pragma once
#include <cxxabi.h>
#include <sys/mman.h>
#include <ucontext.h>

#include "sx.h"
#ifndef PREEMPT
#    define PREEMPT 2
#endif
namespace fib {
bool active = false;
struct T
{
    ucontext_t c;
    std::function<void()> f;
    const void* on = nullptr; // blocked on
    bool done = false, used = false, napping = false;
    vc clock;
    char eh[16] = {};
};
static T* ts;
static int cur = 0, nt = 1, preempts = 0, points = 0, idle = 0;
static const char* const CH[] = { "sched" };
int self() { return cur; }
static void swap_to(int n)
{
    if (n == cur)
        return;
    int p = cur;
    char* g = (char*)abi::__cxa_get_globals();
    for (int i = 0; i < 16; ++i)
        ts[p].eh[i] = g[i];
    cur = n;
    for (int i = 0; i < 16; ++i)
        g[i] = ts[n].eh[i];
    swapcontext(&ts[p].c, &ts[n].c);
}
static bool runnable(int i) { return ts[i].used && !ts[i].done && !ts[i].on; }
// some other thread must run now
static void switch_away()
{
    int cand[MAXT], n = 0;
    for (int i = 0; i < nt; ++i)
        if (i != cur && runnable(i) && !ts[i].napping)
            cand[n++] = i;
    if (!n) // all others sleep
        for (int i = 0; i < nt; ++i)
            if (i != cur && runnable(i))
                cand[n++] = i;
    if (!n && runnable(cur))
    {
        if (++idle > 40)
        {
            sx::check(false, "a thread waits for something that cannot happen");
            __sx_end_path();
        }
        return;
    }
    if (!n)
    {
        sx::check(false, "all threads wait (deadlock)");
        __sx_end_path();
    }
    if (++idle > 400)
    {
        sx::check(false, "threads wait for each other without progress");
        __sx_end_path();
    }
    swap_to(cand[sx::choose("next", n)]);
}
void point(const char*)
{
    if (!active)
        return;
    idle = 0;
    ts[cur].napping = false;
    if (preempts >= PREEMPT)
        return;
    int cand[MAXT], n = 1;
    cand[0] = cur;
    for (int i = 0; i < nt; ++i)
        if (i != cur && runnable(i) && !ts[i].napping)
            cand[n++] = i;
    if (n == 1)
        return;
    int k = sx::choose("sched", n);
    if (k)
    {
        ++preempts;
        swap_to(cand[k]);
    }
}
bool spurious()
{
    if (!active || preempts >= PREEMPT || !sx::choose("spurious wake-up", 2))
        return false;
    ++preempts;
    return true;
}
void block(const void* on)
{
    if (!active)
        return;
    ts[cur].on = on;
    switch_away();
}
void wake(const void* on, bool all)
{
    if (!active)
        return;
    int cand[MAXT], n = 0;
    for (int i = 0; i < nt; ++i)
        if (ts[i].used && ts[i].on == on)
            cand[n++] = i;
    if (!n)
        return;
    if (all)
        for (int i = 0; i < n; ++i)
            ts[cand[i]].on = nullptr;
    else
        ts[cand[sx::choose("woken", n)]].on = nullptr;
}
void nap()
{
    if (!active)
        return;
    ts[cur].napping = true;
    switch_away();
    ts[cur].napping = false;
}
void acquire(obj& o) { if (active) ts[cur].clock.join(o.clock); }
void release(obj& o)
{
    if (!active)
        return;
    o.clock.join(ts[cur].clock);
    ++ts[cur].clock.c[cur];
}
void access(vc& r, vc& w, bool write, const char*)
{
    if (!active)
        return;
    vc& me = ts[cur].clock;
    bool ok = true;
    for (int i = 0; i < MAXT; ++i)
        if (i != cur)
        {
            ok = ok && w.c[i] <= me.c[i];
            if (write)
                ok = ok && r.c[i] <= me.c[i];
        }
    sx::check(ok, "no data race: accesses to a queue are ordered by synchronisation");
    (write ? w : r).c[cur] = me.c[cur];
}
static void entry()
{
    try
    {
        ts[cur].f();
    }
    catch (...)
    {
        sx::check(false, "no exception leaves a thread");
        __sx_end_path();
    }
    ts[cur].done = true;
    for (int i = 0; i < nt; ++i)
        if (ts[i].on == &ts[cur])
            ts[i].on = nullptr;
    switch_away();
    abort();
}
int spawn(std::function<void()> f)
{
    if (nt >= MAXT)
        abort();
    int n = nt++;
    T& t = ts[n];
    t.f = std::move(f);
    t.used = true;
    t.clock = ts[cur].clock;
    t.clock.c[n] = 1;
    ++ts[cur].clock.c[cur];
    getcontext(&t.c);
    constexpr size_t SZ = 4 * 1024 * 1024;
    t.c.uc_stack.ss_sp = mmap(nullptr, SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    t.c.uc_stack.ss_size = SZ;
    t.c.uc_link = nullptr;
    makecontext(&t.c, entry, 0);
    point("spawn");
    return n;
}
void join(int n)
{
    while (!ts[n].done)
        block(&ts[n]);
    ts[cur].clock.join(ts[n].clock);
}
// start the exploration with the harness as thread 0
static void start()
{
    ts = new T[MAXT];
    ts[0].used = true;
    ts[0].clock.c[0] = 1;
    active = true;
}
} // namespace fib
