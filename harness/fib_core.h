// Threads under the checker's control.  Included before everything else in the language server's sources: std::thread, std::mutex,
// std::condition_variable, std::atomic and std::this_thread there mean the classes below.  Threads are fibers; at every operation
// on a mutex, condition variable or atomic the next thread to run is a symbolic choice.  Sequential consistency; at most
// fib::budget involuntary switches per path.  std::deque, std::vector, std::map checks for data races (happens-before).
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <cassert>
#include <charconv>
#include <chrono>
#include <condition_variable>
#include <deque>
#include <filesystem>
#include <forward_list>
#include <fstream>
#include <functional>
#include <future>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <list>
#include <locale>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <optional>
#include <queue>
#include <random>
#include <regex>
#include <set>
#include <shared_mutex>
#include <sstream>
#include <stack>
#include <stdexcept>
#include <string>
#include <string_view>
#include <thread>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>
#include <any>
#include <nlohmann/json.hpp>

namespace fib {
constexpr int MAXT = 6;
struct vc
{
    unsigned c[MAXT] = {};
    void join(const vc& o)
    {
        for (int i = 0; i < MAXT; ++i)
            if (o.c[i] > c[i])
                c[i] = o.c[i];
    }
};
struct obj // something threads synchronise on
{
    vc clock;
};
extern bool active; // inside the exploration
int self();
void point(const char* what); // a place where another thread may run
void block(const void* on); // until wake(on)
void wake(const void* on, bool all);
void acquire(obj& o);
void release(obj& o);
int spawn(std::function<void()> f);
void join(int t);
void nap(); // sleeping: others run first
bool spurious(); // a spurious wake-up or time-out happens
void access(vc& readers, vc& writers, bool write, const char* what);
} // namespace fib

namespace std {
class sx_mutex
{
    fib::obj o;
    int owner = -1;

public:
    constexpr sx_mutex() = default;
    sx_mutex(const sx_mutex&) = delete;
    void lock()
    {
        fib::point("lock");
        while (owner != -1)
            fib::block(this);
        owner = fib::self();
        fib::acquire(o);
    }
    bool try_lock()
    {
        fib::point("try_lock");
        if (owner != -1)
            return false;
        owner = fib::self();
        fib::acquire(o);
        return true;
    }
    void unlock()
    {
        fib::release(o);
        owner = -1;
        fib::wake(this, true);
        fib::point("unlock");
    }
    void unlock_quietly()
    {
        fib::release(o);
        owner = -1;
        fib::wake(this, true);
    }
};
class sx_recursive_mutex
{
    sx_mutex m;
    int owner = -1, n = 0;

public:
    void lock()
    {
        if (owner == fib::self())
        {
            ++n;
            return;
        }
        m.lock();
        owner = fib::self();
        n = 1;
    }
    void unlock()
    {
        if (--n == 0)
        {
            owner = -1;
            m.unlock();
        }
    }
};
class sx_condition_variable
{
public:
    void notify_one()
    {
        fib::point("notify");
        fib::wake(this, false);
    }
    void notify_all()
    {
        fib::point("notify");
        fib::wake(this, true);
    }
    void wait(unique_lock<sx_mutex>& l)
    {
        fib::point("wait");
        l.mutex()->unlock_quietly();
        if (!fib::spurious())
            fib::block(this);
        l.mutex()->lock();
    }
    template<class P>
    void wait(unique_lock<sx_mutex>& l, P p)
    {
        while (!p())
            wait(l);
    }
    template<class R, class Q>
    cv_status wait_for(unique_lock<sx_mutex>& l, const chrono::duration<R, Q>&)
    {
        l.mutex()->unlock_quietly();
        fib::nap();
        l.mutex()->lock();
        return cv_status::timeout;
    }
    template<class R, class Q, class P>
    bool wait_for(unique_lock<sx_mutex>& l, const chrono::duration<R, Q>& d, P p)
    {
        if (!p())
            wait_for(l, d);
        return p();
    }
};
class sx_thread
{
    int t = -1;

public:
    using id = int;
    sx_thread() = default;
    template<class F, class... A, class = enable_if_t<!is_same_v<decay_t<F>, sx_thread>>>
    explicit sx_thread(F&& f, A&&... a)
    {
        auto tup = make_shared<tuple<decay_t<F>, decay_t<A>...>>(forward<F>(f), forward<A>(a)...);
        t = fib::spawn([tup] { apply([](auto& fn, auto&... as) { invoke(std::move(fn), std::move(as)...); }, *tup); });
    }
    sx_thread(sx_thread&& o) noexcept : t(o.t) { o.t = -1; }
    sx_thread& operator=(sx_thread&& o) noexcept
    {
        if (t != -1)
            terminate();
        t = o.t;
        o.t = -1;
        return *this;
    }
    ~sx_thread()
    {
        if (t != -1)
            terminate();
    }
    bool joinable() const { return t != -1; }
    void join()
    {
        fib::join(t);
        t = -1;
    }
    void detach() { t = -1; }
    int get_id() const { return t; }
};
template<class T>
class sx_atomic
{
protected:
    std::atomic<T> v {};

private:
    static fib::obj& o()
    {
        static fib::obj x;
        return x;
    }
    void sync() const
    {
        fib::point("atomic");
        fib::acquire(o());
        fib::release(o());
    }

public:
    sx_atomic() = default;
    constexpr sx_atomic(T x) noexcept : v(x) {}
    sx_atomic(const sx_atomic&) = delete;
    T load(memory_order = memory_order_seq_cst) const { sync(); return v; }
    void store(T x, memory_order = memory_order_seq_cst) { sync(); v = x; }
    T exchange(T x, memory_order = memory_order_seq_cst) { sync(); T r = v; v = x; return r; }
    bool compare_exchange_strong(T& e, T x, memory_order = memory_order_seq_cst) { sync(); if (v == e) { v = x; return true; } e = v; return false; }
    bool compare_exchange_weak(T& e, T x, memory_order = memory_order_seq_cst) { return compare_exchange_strong(e, x); }
    T fetch_add(T x, memory_order = memory_order_seq_cst) { sync(); T r = v; v += x; return r; }
    T fetch_sub(T x, memory_order = memory_order_seq_cst) { sync(); T r = v; v -= x; return r; }
    T operator++() { return fetch_add(1) + 1; }
    T operator++(int) { return fetch_add(1); }
    T operator--() { return fetch_sub(1) - 1; }
    T operator--(int) { return fetch_sub(1); }
    operator T() const { return load(); }
    T operator=(T x) { store(x); return x; }
    T peek() const { return v; }
};
// for the debugger: the rest of the parser library knows the real type
template<class T>
class sx_atomic_in_library : public sx_atomic<T>
{
public:
    using sx_atomic<T>::sx_atomic;
    using sx_atomic<T>::operator=;
    std::atomic<T>* operator&() { return addressof(this->v); } // read there without a point to switch threads
};
namespace sx_this_thread {
template<class R, class Q>
void sleep_for(const chrono::duration<R, Q>&) { fib::nap(); }
template<class C, class D>
void sleep_until(const chrono::time_point<C, D>&) { fib::nap(); }
inline void yield() { fib::nap(); }
inline int get_id() { return fib::self(); }
} // namespace sx_this_thread
// a deque whose accesses must be ordered by synchronisation
template<class T, class A = allocator<T>>
class sx_deque
{
    deque<T, A> d;
    mutable fib::vc r, w;
    void wr() { fib::access(r, w, true, "deque"); }
    void rd() const { fib::access(r, w, false, "deque"); }

public:
    using value_type = T;
    using size_type = size_t;
    using reference = T&;
    using const_reference = const T&;
    using iterator = typename deque<T, A>::iterator;
    using const_iterator = typename deque<T, A>::const_iterator;
    sx_deque() = default;
    void push_back(const T& t) { wr(); d.push_back(t); }
    void push_back(T&& t) { wr(); d.push_back(std::move(t)); }
    void push_front(T&& t) { wr(); d.push_front(std::move(t)); }
    template<class... X> T& emplace_back(X&&... x) { wr(); return d.emplace_back(forward<X>(x)...); }
    template<class... X> T& emplace_front(X&&... x) { wr(); return d.emplace_front(forward<X>(x)...); }
    T& front() { wr(); return d.front(); }
    const T& front() const { rd(); return d.front(); }
    T& back() { wr(); return d.back(); }
    const T& back() const { rd(); return d.back(); }
    T& operator[](size_t i) { wr(); return d[i]; }
    void pop_front() { wr(); d.pop_front(); }
    void pop_back() { wr(); d.pop_back(); }
    bool empty() const { rd(); return d.empty(); }
    size_t size() const { rd(); return d.size(); }
    void clear() { wr(); d.clear(); }
    iterator begin() { rd(); return d.begin(); }
    iterator end() { rd(); return d.end(); }
    const_iterator begin() const { rd(); return d.begin(); }
    const_iterator end() const { rd(); return d.end(); }
    const_iterator cbegin() const { rd(); return d.begin(); }
    const_iterator cend() const { rd(); return d.end(); }
    iterator erase(const_iterator a) { wr(); return d.erase(a); }
    iterator erase(const_iterator a, const_iterator b) { wr(); return d.erase(a, b); }
    template<class... X> iterator insert(const_iterator a, X&&... x) { wr(); return d.insert(a, forward<X>(x)...); }
    void swap(sx_deque& o) { wr(); o.wr(); d.swap(o.d); }
};
} // namespace std

