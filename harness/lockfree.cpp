// Conformance harness for LockFree.tla: the real lockfree_ring_buffer, its atomics, fences and copies replaced by
// recording stand-ins, two threads run one step at a time under a scripted schedule.
// Script line: v cap stale na {k n p} nb {k n p} nsched {pick}
#include <algorithm>
#include <array>
#include <atomic>
#include <condition_variable>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <string>
#include <thread>
#include <tuple>
#include <vector>
#include <kfr/base/expression.hpp>
#include <kfr/base/memory.hpp>
#include <kfr/cometa/array.hpp>
#include <kfr/simd/read_write.hpp>
#include "vh.hpp"

namespace sh
{
// ---- one-step-at-a-time execution ----
static std::mutex m;
static std::condition_variable cv;
static int turn          = 0; // 0 scheduler, 1/2 threads
static thread_local int me = 0;
static int choice        = 0; // how far back a load may look
static bool done[3];
static void yield()
{
    if (!me)
        return;
    std::unique_lock<std::mutex> lk(m);
    turn = 0;
    cv.notify_all();
    cv.wait(lk, [] { return turn == me; });
}
// ---- memory model ----
struct entry { unsigned long long val; int t; int at; std::array<int, 2> clk; };
static std::vector<std::vector<entry>> hist;
static std::array<std::array<int, 2>, 3> vc, rel, acq;
static std::array<std::map<int, int>, 3> seen;
static std::vector<void*> vars;
static bool stale;
static void* buf_lo;
static size_t esize, ecap;
static std::string log_;
static void join(std::array<int, 2>& a, const std::array<int, 2>& b) { a[0] = std::max(a[0], b[0]); a[1] = std::max(a[1], b[1]); }
static const char* moname(std::memory_order o)
{
    switch (o)
    {
    case std::memory_order_relaxed: return "rlx";
    case std::memory_order_consume:
    case std::memory_order_acquire: return "acq";
    case std::memory_order_release: return "rel";
    case std::memory_order_acq_rel: return "acqrel";
    default: return "sc";
    }
}
static bool acquires(std::memory_order o) { return o != std::memory_order_relaxed && o != std::memory_order_release; }
static bool releases(std::memory_order o) { return o == std::memory_order_release || o == std::memory_order_acq_rel || o == std::memory_order_seq_cst; }
static int id(void* p)
{
    for (size_t i = 0; i < vars.size(); ++i)
        if (vars[i] == p)
            return (int)i;
    return -1;
}
static unsigned long long load(void* p, std::memory_order o, bool rmw = false)
{
    int x = id(p), t = me;
    auto& h = hist[x];
    int last = (int)h.size() - 1, lo = seen[t].count(x) ? seen[t][x] : 0;
    for (int i = 0; i <= last; ++i)
        if (h[i].t && h[i].at <= vc[t][h[i].t - 1])
            lo = std::max(lo, i);
    int back = (stale && !rmw && o != std::memory_order_seq_cst) ? std::min(choice, last - lo) : 0;
    int i    = last - back;
    seen[t][x] = i;
    vc[t][t - 1]++;
    if (acquires(o))
        join(vc[t], h[i].clk);
    join(acq[t], h[i].clk);
    vh::rec("load").i("th", t).i("x", x).i("back", back).i("val", vh::num(h[i].val)).str("mo", moname(o)).out();
    return h[i].val;
}
static void store(void* p, unsigned long long v, std::memory_order o)
{
    int x = id(p), t = me;
    vc[t][t - 1]++;
    entry e{ v, t, vc[t][t - 1], releases(o) ? vc[t] : rel[t] };
    hist[x].push_back(e);
    seen[t][x] = (int)hist[x].size() - 1;
    vh::rec("store").i("th", t).i("x", x).i("val", vh::num(v)).str("mo", moname(o)).out();
}
static void fence(std::memory_order o)
{
    int t = me;
    if (!t)
        return;
    yield();
    vc[t][t - 1]++;
    if (acquires(o))
        join(vc[t], acq[t]);
    if (releases(o))
        rel[t] = vc[t];
    vh::rec("fence").i("th", t).str("mo", moname(o)).out();
}
static long long val(const void* p)
{
    long long v;
    std::memcpy(&v, p, sizeof v);
    return v;
}
static void access(const char* ev, const void* cell, const void* data, size_t bytes)
{
    long long at = ((const char*)cell - (const char*)buf_lo) / (long long)esize;
    std::vector<long long> vals;
    for (size_t i = 0; i < bytes / esize; ++i)
        vals.push_back(val((const char*)data + i * esize));
    vc[me][me - 1]++;
    vh::rec(ev).i("th", me).i("at", at).list("vals", vals).out();
}
static bool inbuf(const void* p) { return (const char*)p >= (const char*)buf_lo - 64 && (const char*)p < (const char*)buf_lo + (ecap + 8) * esize; }
static void* copy(void* d, const void* s, size_t n)
{
    if (!me || n == 0)
        return n ? std::memmove(d, s, n) : d;
    if (inbuf(d))
    {
        yield();
        std::memmove(d, s, n);
        access("wr", d, s, n);
    }
    else if (inbuf(s))
    {
        yield();
        std::memmove(d, s, n);
        access("rd", s, d, n);
    }
    else
        std::memmove(d, s, n);
    return d;
}
} // namespace sh
namespace std
{
template <typename T>
struct vh_atomic
{
    T init{};
    vh_atomic() { reg(0); }
    vh_atomic(T v) { reg(v); }
    vh_atomic(const vh_atomic&) = delete;
    void reg(T v)
    {
        sh::vars.push_back(this);
        sh::hist.push_back({ sh::entry{ (unsigned long long)v, 0, 0, { 0, 0 } } });
    }
    T load(memory_order o = memory_order_seq_cst) const { sh::yield(); return (T)sh::load((void*)this, o); }
    void store(T v, memory_order o = memory_order_seq_cst) { sh::yield(); sh::store(this, (unsigned long long)v, o); }
    T exchange(T v, memory_order o = memory_order_seq_cst) { sh::yield(); T r = (T)sh::load(this, o, true); sh::store(this, (unsigned long long)v, o); return r; }
    T fetch_add(T v, memory_order o = memory_order_seq_cst) { sh::yield(); T r = (T)sh::load(this, o, true); sh::store(this, (unsigned long long)(r + v), o); return r; }
    T fetch_sub(T v, memory_order o = memory_order_seq_cst) { sh::yield(); T r = (T)sh::load(this, o, true); sh::store(this, (unsigned long long)(r - v), o); return r; }
    bool compare_exchange_strong(T& e, T v, memory_order o = memory_order_seq_cst, memory_order = memory_order_seq_cst)
    {
        sh::yield();
        T r = (T)sh::load(this, o, true);
        if (r != e) { e = r; return false; }
        sh::store(this, (unsigned long long)v, o);
        return true;
    }
    bool compare_exchange_weak(T& e, T v, memory_order o = memory_order_seq_cst, memory_order p = memory_order_seq_cst) { return compare_exchange_strong(e, v, o, p); }
    T operator=(T v) { store(v); return v; }
    operator T() const { return load(); }
    T operator+=(T v) { return fetch_add(v) + v; }
    T operator-=(T v) { return fetch_sub(v) - v; }
    T operator++() { return fetch_add(1) + 1; }
};
inline void vh_fence(memory_order o) { sh::fence(o); }
inline void* vh_memcpy(void* d, const void* s, size_t n) { return sh::copy(d, s, n); }
using vh_atomic_size_t = vh_atomic<size_t>;
} // namespace std
inline void* vh_memcpy(void* d, const void* s, size_t n) { return sh::copy(d, s, n); }

#define atomic vh_atomic
#define atomic_size_t vh_atomic_size_t
#define atomic_thread_fence vh_fence
#define builtin_memcpy vh_memcpy
#define memcpy vh_memcpy
#define memmove vh_memcpy
#define __builtin_memcpy vh_memcpy
#include <kfr/base/univector.hpp>
#undef atomic
#undef atomic_size_t
#undef atomic_thread_fence
#undef builtin_memcpy
#undef memcpy
#undef memmove
#undef __builtin_memcpy
using namespace kfr;

// an element whose assignment is observed
struct item
{
    long long v = -1;
    item() = default;
    item(long long v) : v(v) {}
    item(const item& o) { sh::copy(&v, &o.v, sizeof v); }
    item& operator=(const item& o)
    {
        sh::copy(&v, &o.v, sizeof v);
        return *this;
    }
};
struct opr { char k; size_t n; bool p; };

template <typename T, typename Buf>
void session(Buf& buffer, const std::vector<opr>& a, const std::vector<opr>& b, const std::vector<int>& sched, std::function<bool()> guard)
{
    using namespace sh;
    vars.clear(); hist.clear();
    for (auto* x : { &vc, &rel, &acq })
        for (auto& y : *x)
            y = { 0, 0 };
    for (auto& s : seen) s.clear();
    done[1] = done[2] = false;
    buf_lo = (void*)buffer.data();
    esize  = sizeof(T);
    ecap   = buffer.size();
    auto q = std::make_unique<lockfree_ring_buffer<T>>();
    vh::rec("init").i("cap", (long long)ecap).b("stale", stale).i("nvars", (long long)vars.size()).out();
    long long next = 0;
    auto body = [&](int t, const std::vector<opr>& ops)
    {
        me = t;
        {
            std::unique_lock<std::mutex> lk(m);
            cv.wait(lk, [&] { return turn == t; });
        }
        for (auto& o : ops)
        {
            std::vector<long long> items;
            vh::guarded<T> mem(o.n + 1, 0xA7);
            T* p = mem.data();
            bool ok = true;
            long long r = 0;
            if (o.k == 'e')
                for (size_t i = 0; i < o.n; ++i)
                {
                    long long x = ++next;
                    std::memcpy((void*)(p + i), &x, 8);
                    items.push_back(x);
                }
            vh::rec("call").i("th", t).str("op", o.k == 'e' ? "enq" : o.k == 'd' ? "deq" : "size").i("n", (long long)o.n).b("partial", o.p).list("items", items).out();
            if (o.k == 'e')
            {
                r = vh::num(q->try_enqueue(p, o.n, buffer, o.p));
                items.clear();
            }
            else if (o.k == 'd')
            {
                const Buf& cb = buffer;
                r = vh::num(q->try_dequeue(p, o.n, cb, o.p));
                for (long long i = 0; i < r && i < (long long)o.n; ++i)
                    items.push_back(val(p + i));
                // nothing after the reported items may be written
                for (size_t i = r < 0 || r > (long long)o.n ? 0 : (size_t)r; i < o.n + 1; ++i)
                    ok = ok && (unsigned char)((unsigned char*)(p + i))[0] == 0xA7;
            }
            else
                r = vh::num(q->size());
            vh::rec("ret").i("th", t).i("n", r).list("items", items).b("ok", ok && mem.check() && guard()).out();
        }
        std::unique_lock<std::mutex> lk(m);
        done[t] = true;
        turn    = 0;
        cv.notify_all();
    };
    std::thread t1([&] { body(1, a); }), t2([&] { body(2, b); });
    auto step = [&](int t, int back)
    {
        std::unique_lock<std::mutex> lk(m);
        if (done[t])
            t = 3 - t;
        if (done[t])
            return false;
        choice = back;
        turn   = t;
        cv.notify_all();
        cv.wait(lk, [] { return turn == 0; });
        return true;
    };
    for (int p : sched)
        if (!step((p - 1) % 2 + 1, (p - 1) / 2))
            break;
    for (int i = 0; step(1 + i % 2, 0); ++i)
        ;
    t1.join();
    t2.join();
    turn = 0;
}
int main()
{
    vh::in_t in;
    auto ops = [&] { std::vector<opr> r((size_t)in.i()); for (auto& o : r) { o.k = in.word()[0]; o.n = (size_t)in.i(); o.p = in.i(); } return r; };
    while (in.line())
    {
        int v      = (int)in.i();
        size_t cap = (size_t)in.i();
        sh::stale  = in.i();
        auto a = ops(), b = ops();
        std::vector<int> sched;
        for (auto x : in.list())
            sched.push_back((int)x);
        if (v == 0)
        {
            vh::guarded<long long> g(cap, 0xFF);
            univector_ref<long long> u = make_univector(g.data(), cap);
            session<long long>(u, a, b, sched, [&] { return g.check(); });
        }
        else if (v == 1)
        {
            std::vector<item> mem(cap + 16);
            univector_ref<item> u = make_univector(mem.data() + 8, cap);
            session<item>(u, a, b, sched, [&] { for (size_t i = 0; i < 8; ++i) if (mem[i].v != -1 || mem[cap + 8 + i].v != -1) return false; return true; });
        }
        else if (v == 2)
        {
            univector<long long> u(cap, -1);
            session<long long>(u, a, b, sched, [&] { return true; });
        }
        else
        {
            univector<item> u(cap);
            session<item>(u, a, b, sched, [&] { return true; });
        }
    }
}
