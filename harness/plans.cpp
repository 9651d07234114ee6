// Plans shared by threads and the plan cache; see spec/Plans.tla.
// Script line:  R nkeys (kind prec size)... nthreads (nops (op key dir)...)...
//          or:  Z nkeys (kind prec size)...      plans whose memory is read-only while they execute
#include <kfr/dft.hpp>
#include "vh.hpp"
#include <atomic>
#include <csignal>
#include <functional>
#include <map>
#include <memory>
#include <sys/mman.h>
#include <thread>
#include <unistd.h>
using namespace kfr;

// ---- memory of a plan: everything allocated while it is constructed lives in an arena ----
static unsigned char* arena      = nullptr;
static size_t arena_size         = 512u << 20, arena_used = 0;
static bool capture              = false;
static std::atomic<int> faults{ 0 };
extern "C" void* __real_malloc(size_t);
extern "C" void __real_free(void*);
static void* arena_alloc(size_t n)
{
    size_t p   = (arena_used + 63) & ~size_t(63);
    arena_used = p + n;
    if (arena_used > arena_size)
        std::abort();
    return arena + p;
}
static bool in_arena(void* p) { return arena && p >= arena && p < arena + arena_size; }
#ifndef TSAN
extern "C" void* __wrap_malloc(size_t n) { return capture ? arena_alloc(n) : __real_malloc(n); }
extern "C" void __wrap_free(void* p)
{
    if (!in_arena(p))
        __real_free(p);
}
void* operator new(size_t n) { return capture ? arena_alloc(n) : __real_malloc(n); }
void operator delete(void* p) noexcept { __wrap_free(p); }
void operator delete(void* p, size_t) noexcept { __wrap_free(p); }
#endif
static void onsegv(int, siginfo_t* si, void*)
{
    if (in_arena(si->si_addr))
    {
        ++faults;
        mprotect(arena, arena_size, PROT_READ | PROT_WRITE);
        return;
    }
    signal(SIGSEGV, SIG_DFL);
}

struct key_t3
{
    int kind, prec;
    size_t size;
};

static void fill(std::vector<double>& x, unsigned long long seed)
{
    unsigned long long s = seed * 2654435761ull + 99;
    for (auto& v : x)
    {
        s = s * 6364136223846793005ull + 1442695040888963407ull;
        v = (double)((long long)((s >> 40) % 21) - 10);
    }
}
template <typename T>
static long long hash(const T* p, size_t n)
{
    unsigned long long h       = 1469598103934665603ull;
    const unsigned char* b     = (const unsigned char*)p;
    for (size_t i = 0; i < n * sizeof(T); ++i)
        h = (h ^ b[i]) * 1099511628211ull;
    return (long long)(h % 1000000007ull);
}

struct any_plan
{
    virtual ~any_plan() {}
    virtual const void* id() const                              = 0;
    virtual size_t size() const                                 = 0;
    virtual long long exec(int dir, unsigned long long seed) const = 0;
};
template <typename T>
struct plan_c : any_plan
{
    std::shared_ptr<const dft_plan<T>> p;
    plan_c(std::shared_ptr<const dft_plan<T>> p) : p(std::move(p)) {}
    const void* id() const override { return p.get(); }
    size_t size() const override { return p->size; }
    long long exec(int dir, unsigned long long seed) const override
    {
        size_t n = p->size;
        std::vector<double> x(2 * n);
        fill(x, seed);
        univector<complex<T>> in(n), out(n);
        for (size_t i = 0; i < n; ++i)
            in[i] = complex<T>((T)x[2 * i], (T)x[2 * i + 1]);
        univector<u8> temp(p->temp_size);
        p->execute(out.data(), in.data(), temp.data(), dir == 1);
        return hash(out.data(), n);
    }
};
template <typename T>
struct plan_r : any_plan
{
    std::shared_ptr<const dft_plan_real<T>> p;
    plan_r(std::shared_ptr<const dft_plan_real<T>> p) : p(std::move(p)) {}
    const void* id() const override { return p.get(); }
    size_t size() const override { return p->size; }
    long long exec(int dir, unsigned long long seed) const override
    {
        size_t n = p->size, c = p->complex_size();
        std::vector<double> x(2 * c);
        fill(x, seed);
        univector<complex<T>> cx(c);
        univector<T> re(n);
        univector<u8> temp(p->temp_size);
        if (dir == 0)
        {
            for (size_t i = 0; i < n; ++i)
                re[i] = (T)x[i];
            p->execute(cx.data(), re.data(), temp.data());
            return hash(cx.data(), c);
        }
        for (size_t i = 0; i < c; ++i)
            cx[i] = complex<T>((T)x[2 * i], (i == 0 || i == c - 1) ? T(0) : (T)x[2 * i + 1]);
        p->execute(re.data(), cx.data(), temp.data());
        return hash(re.data(), n);
    }
};
template <typename T>
static std::shared_ptr<any_plan> fresh(const key_t3& k)
{
    if (k.kind == 0)
        return std::make_shared<plan_c<T>>(std::make_shared<dft_plan<T>>(k.size));
    return std::make_shared<plan_r<T>>(std::make_shared<dft_plan_real<T>>(k.size));
}
template <typename T>
static std::shared_ptr<any_plan> cached(const key_t3& k)
{
    if (k.kind == 0)
        return std::make_shared<plan_c<T>>(dft_cache::instance().get(ctype_t<T>(), k.size));
    return std::make_shared<plan_r<T>>(dft_cache::instance().getreal(ctype_t<T>(), k.size));
}
// the convenience functions, on the same data as exec
template <typename T>
static long long convenience(const key_t3& k, int dir, unsigned long long seed)
{
    size_t n = k.size, c = k.kind == 0 ? n : n / 2 + 1;
    std::vector<double> x(2 * c);
    fill(x, seed);
    if (k.kind == 0)
    {
        univector<complex<T>> in(n);
        for (size_t i = 0; i < n; ++i)
            in[i] = complex<T>((T)x[2 * i], (T)x[2 * i + 1]);
        univector<complex<T>> out = dir == 0 ? dft(in) : idft(in);
        return hash(out.data(), out.size());
    }
    if (dir == 0)
    {
        univector<T> in(n);
        for (size_t i = 0; i < n; ++i)
            in[i] = (T)x[i];
        univector<complex<T>> out = realdft(in);
        return hash(out.data(), out.size());
    }
    univector<complex<T>> in(c);
    for (size_t i = 0; i < c; ++i)
        in[i] = complex<T>((T)x[2 * i], (i == 0 || i == c - 1) ? T(0) : (T)x[2 * i + 1]);
    univector<T> out = irealdft(in);
    return hash(out.data(), out.size());
}
static std::shared_ptr<any_plan> fresh(const key_t3& k) { return k.prec ? fresh<double>(k) : fresh<float>(k); }
static std::shared_ptr<any_plan> cached(const key_t3& k) { return k.prec ? cached<double>(k) : cached<float>(k); }
static long long convenience(const key_t3& k, int dir, unsigned long long seed)
{
    return k.prec ? convenience<double>(k, dir, seed) : convenience<float>(k, dir, seed);
}

struct opr
{
    char op;
    int key, dir;
    long long b = 0, e = 0, res = 0, alone = 0;
    bool ok          = true;
    const void* ptr  = nullptr;
    int fault        = 0;
};

static std::atomic<long long> ticket{ 0 };
static long long tick()
{
    asm volatile("" ::: "memory");
    long long t = ticket.fetch_add(1, std::memory_order_relaxed);
    asm volatile("" ::: "memory");
    return t;
}

static void emit(const std::vector<std::vector<opr>>& th, const std::vector<key_t3>& keys)
{
    std::map<const void*, int> ids;
    std::string s = "{\"ev\":\"init\",\"threads\":[";
    for (size_t t = 0; t < th.size(); ++t)
    {
        s += t ? ",[" : "[";
        for (size_t j = 0; j < th[t].size(); ++j)
        {
            const opr& o = th[t][j];
            const char* nm = o.op == 'G' ? "get" : o.op == 'U' ? "use" : o.op == 'C' ? "clear" : o.op == 'Z' ? "frozen" : "exec";
            int id = 0;
            if (o.ptr)
            {
                auto it = ids.find(o.ptr);
                if (it == ids.end())
                    it = ids.emplace(o.ptr, (int)ids.size() + 1).first;
                id = it->second;
            }
            const key_t3& k = keys[o.op == 'C' ? 0 : o.key];
            s += std::string(j ? "," : "") + "{\"op\":\"" + nm + "\",\"key\":[" + std::to_string(k.kind) + "," +
                 std::to_string(k.prec) + "," + std::to_string(k.size) + "],\"id\":" + std::to_string(id) +
                 ",\"b\":" + std::to_string(o.b) + ",\"e\":" + std::to_string(o.e) + ",\"ok\":" + (o.ok ? "true" : "false") +
                 ",\"res\":" + std::to_string(o.res) + ",\"alone\":" + std::to_string(o.alone) + ",\"faults\":" + std::to_string(o.fault) + "}";
        }
        s += "]";
    }
    s += "]}\n";
    std::fwrite(s.data(), 1, s.size(), stdout);
    std::fflush(stdout);
}

int main()
{
    vh::in_t in;
    while (in.line())
    {
        std::string w = in.word();
        std::vector<key_t3> keys((size_t)in.i());
        for (auto& k : keys)
        {
            k.kind = (int)in.i();
            k.prec = (int)in.i();
            k.size = (size_t)in.i();
        }
        if (w == "Z")
        {
            std::vector<opr> ops;
#ifndef TSAN
            if (!arena)
            {
                arena = (unsigned char*)mmap(nullptr, arena_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
                struct sigaction sa
                {
                };
                sa.sa_sigaction = onsegv;
                sa.sa_flags     = SA_SIGINFO | SA_NODEFER;
                sigaction(SIGSEGV, &sa, nullptr);
            }
            for (size_t j = 0; j < keys.size(); ++j)
            {
                auto ref   = fresh(keys[j]);
                arena_used = 0;
                capture    = true;
                auto p     = fresh(keys[j]);
                capture    = false;
                for (int rep = 0; rep < 2; ++rep)
                    for (int dir = 0; dir < 2; ++dir)
                    {
                        opr o{ 'Z', (int)j, dir };
                        o.alone = ref->exec(dir, 7 + j);
                        faults  = 0;
                        size_t used = (arena_used + 4095) & ~size_t(4095);
                        mprotect(arena, used, PROT_READ);
                        o.res = p->exec(dir, 7 + j);
                        mprotect(arena, used, PROT_READ | PROT_WRITE);
                        o.fault = faults;
                        o.b     = tick();
                        o.e     = tick();
                        ops.push_back(o);
                    }
                p.reset(); // destroyed inside the arena, whose frees do nothing
            }
#endif
            emit({ ops }, keys);
            continue;
        }
        size_t nt = (size_t)in.i();
        std::vector<std::vector<opr>> th(nt);
        for (auto& l : th)
        {
            l.resize((size_t)in.i());
            for (auto& o : l)
            {
                o.op  = in.word()[0];
                o.key = (int)in.i() - 1;
                o.dir = (int)in.i();
            }
        }
        dft_cache::instance().clear();
        std::vector<std::shared_ptr<any_plan>> shared;
        std::vector<long long> alone; // key*2+dir
        for (auto& k : keys)
        {
            shared.push_back(fresh(k));
            for (int d = 0; d < 2; ++d)
                alone.push_back(fresh(k)->exec(d, k.size + d));
        }
        ticket = 0;
        std::atomic<int> ready{ 0 };
        std::vector<std::vector<std::shared_ptr<any_plan>>> keep(nt);
        std::vector<std::thread> ts;
        for (size_t t = 0; t < nt; ++t)
            ts.emplace_back(
                [&, t]
                {
                    std::vector<std::shared_ptr<any_plan>> mine(keys.size());
                    ready.fetch_add(1, std::memory_order_relaxed);
                    while (ready.load(std::memory_order_relaxed) < (int)nt)
                        std::this_thread::yield();
                    for (auto& o : th[t])
                    {
                        o.b = tick();
                        if (o.op == 'G')
                        {
                            auto p = cached(keys[o.key]);
                            o.ptr  = p->id();
                            o.ok   = p->size() == keys[o.key].size;
                            keep[t].push_back(p);
                            mine[o.key] = p;
                        }
                        else if (o.op == 'C')
                            dft_cache::instance().clear();
                        else
                        {
                            o.alone   = alone[o.key * 2 + o.dir];
                            int reps  = o.op == 'U' ? 1 : (int)std::max<size_t>(2, std::min<size_t>(12, 4000 / keys[o.key].size));
                            auto& src = o.op == 'X' && mine[o.key] ? mine[o.key] : shared[o.key];
                            for (int r = 0; r < reps && (r == 0 || o.res == o.alone); ++r)
                                o.res = o.op == 'U' ? convenience(keys[o.key], o.dir, keys[o.key].size + o.dir)
                                                    : src->exec(o.dir, keys[o.key].size + o.dir);
                        }
                        o.e = tick();
                    }
                });
        for (auto& x : ts)
            x.join();
        emit(th, keys);
    }
}
