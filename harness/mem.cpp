// Aligned memory blocks; see spec/Mem.tla.  Script line: nops ops...
// malloc and free of this program are replaced (-Wl,--wrap) by counting ones that can be told to fail.
#include <kfr/base.hpp>
#include <map>
#include <mutex>
#include <set>
#include <thread>
#ifdef CAPI // the same through the C functions
#define KFR_NO_C_COMPLEX_TYPES 1
#include <kfr/capi.h>
#endif
#include "vh.hpp"
using namespace kfr;
using vh::rec;

extern "C" void* __real_malloc(size_t);
extern "C" void __real_free(void*);
static std::map<void*, size_t>* raw = nullptr; // blocks obtained and not returned
static bool watching                = false, failing = false;
static std::atomic<int> bad_frees{ 0 };
static std::mutex mx;
extern "C" void* __wrap_malloc(size_t n)
{
    if (watching && failing)
        return nullptr;
    void* p = n > ((size_t)1 << 40) ? nullptr : __real_malloc(n);
    if (watching && p)
    {
        std::lock_guard<std::mutex> l(mx);
        (*raw)[p] = n;
    }
    return p;
}
extern "C" void __wrap_free(void* p)
{
    if (watching && p)
    {
        std::lock_guard<std::mutex> l(mx);
        if (raw->erase(p) != 1)
            bad_frees++, p = nullptr; // freed twice or never obtained
    }
    __real_free(p);
}
struct guard
{
    guard(bool fail = false) { watching = true, failing = fail; }
    ~guard() { watching = false, failing = false; }
};
struct alignas(128) big_object : aligned_new
{
    char c[200];
};
struct small_object : aligned_new
{
    char c[24];
};
static std::atomic<int> counted_live{ 0 };
struct counted
{
    KFR_CLASS_REFCOUNT(counted)
public:
    counted() { counted_live++; }
    ~counted() { counted_live--; }
};

struct block
{
    unsigned char* p;
    size_t n;      // usable
    int align, fill;
};
static std::map<int, block> live;
static int ids = 0;
#ifdef CAPI
#define SIZE_OF(p) kfr_allocated_size(p)
#else
#define SIZE_OF(p) details::aligned_size(p)
#endif
static details::memory_statistics& st = details::get_memory_statistics();
static size_t s0[4];

static void state(rec& r)
{
    bool intact = true;
    for (auto& [id, b] : live)
        for (size_t i = 0; i < b.n; ++i)
            intact = intact && b.p[i] == (unsigned char)(b.fill + i * 7);
    std::vector<std::pair<unsigned char*, unsigned char*>> rs;
    for (auto& [id, b] : live)
        if (b.n)
            rs.emplace_back(b.p, b.p + b.n);
    std::sort(rs.begin(), rs.end());
    bool apart = true, inside = true;
    for (size_t i = 1; i < rs.size(); ++i)
        apart = apart && rs[i - 1].second <= rs[i].first;
    for (auto& x : rs) // within one block of the underlying allocator
    {
        bool in = false;
        for (auto& [q, n] : *raw)
            in = in || (x.first >= (unsigned char*)q && x.second <= (unsigned char*)q + n);
        inside = inside && in;
    }
    r.b("intact", intact).b("apart", apart).b("inside", inside).i("raw", raw->size()).i("bad", bad_frees.load());
    r.list("stats", std::vector<long long>{ (long long)(st.allocation_count - s0[0]), (long long)(st.allocation_size - s0[1]), (long long)(st.deallocation_count - s0[2]), (long long)(st.deallocation_size - s0[3]) });
    r.out();
}
static int add(void* p, size_t n, int align)
{
    int id = ++ids;
    auto* c = (unsigned char*)p;
    for (size_t i = 0; i < n; ++i)
        c[i] = (unsigned char)(id * 31 + i * 7);
    live[id] = { c, n, align, id * 31 };
    return id;
}
template <typename T>
static void* typed(size_t n, int how, int align)
{
    if (how == 0)
        return aligned_allocate<T>(n, align);
    return aligned_allocate<T>(n);
}
static const size_t huge[] = { SIZE_MAX, SIZE_MAX - 15, SIZE_MAX - 64, SIZE_MAX / 2, SIZE_MAX / 8 + 1, SIZE_MAX / 4 + 2, SIZE_MAX - 79, SIZE_MAX - 100 };

int main()
{
    vh::in_t in;
    raw = new std::map<void*, size_t>;
    while (in.line())
    {
        for (auto& [id, b] : live)
            details::aligned_header(b.p)->references() = 1;
        for (auto& [id, b] : live)
        {
            guard g;
            details::aligned_free(b.p);
        }
        live.clear();
        ids = 0;
        bad_frees = 0;
        s0[0] = st.allocation_count, s0[1] = st.allocation_size, s0[2] = st.deallocation_count, s0[3] = st.deallocation_size;
        rec("init").i("raw", raw->size()).out();
        for (size_t nops = in.i(); nops--;)
        {
            std::string o = in.word();
            rec r(o.c_str());
            if (o == "A") // how elem n align fail
            {
                int how = in.i(), elem = in.i();
                long long n = in.i();
                int align = in.i(), fail = in.i();
                size_t cnt = n < 0 ? huge[-n - 1] : n;
                void* p;
#ifdef CAPI
                if (how == 1)
                    align = 64;
                how = 2;
                {
                    guard g(fail);
                    p = align == 64 ? kfr_allocate(cnt) : kfr_allocate_aligned(cnt, align);
                }
#else
                {
                    guard g(fail);
                    p = how == 2 ? details::aligned_malloc(cnt, align) : elem == 1 ? typed<u8>(cnt, how, align) : elem == 4 ? typed<f32>(cnt, how, align) : elem == 8 ? typed<f64>(cnt, how, align) : typed<complex<f64>>(cnt, how, align);
                }
#endif
                r.i("how", how).i("elem", elem).i("n", n).i("align", align).i("fail", fail);
                r.b("null", !p);
                int a = how == 1 ? 64 : align;
                r.b("aligned", !p || (size_t)p % a == 0).i("size", p ? (long long)SIZE_OF(p) : 0);
                bool sane = !p || details::aligned_size(p) < 100000;
                r.b("sane", sane);
                r.i("id", p && sane ? add(p, details::aligned_size(p), a) : 0);
            }
            else if (o == "R") // add a reference
            {
                int id = in.i();
#ifdef CAPI
                if (kfr_add_ref(live[id].p) != live[id].p)
                    bad_frees++;
#else
                details::aligned_add_ref(live[id].p);
#endif
                r.i("id", id);
            }
            else if (o == "D") // id last how: give one up
            {
                int id = in.i(), last = in.i(), how = in.i();
                auto* p = live[id].p;
                if (last)
                    live.erase(id);
                {
                    guard g;
#ifdef CAPI
                    how ? kfr_deallocate(p) : kfr_release(p);
#else
                    how == 0 ? details::aligned_free(p) : how == 1 ? details::aligned_release(p) : aligned_deallocate(p);
#endif
                }
                r.i("id", id);
            }
            else if (o == "Z") // null
            {
                guard g;
#ifdef CAPI
                kfr_deallocate(nullptr);
                kfr_release(nullptr);
                kfr_reallocate(nullptr, 0);
#endif
                aligned_deallocate((void*)nullptr);
                details::aligned_reallocate(nullptr, 0, 64);
            }
            else if (o == "X") // id (0: none) new-size align fail last
            {
                int id = in.i();
                long long n = in.i();
                int align = in.i(), fail = in.i(), last = in.i();
                size_t cnt = n < 0 ? huge[-n - 1] : n;
                block old = id ? live[id] : block{};
                void* p;
                {
                    guard g(fail);
#ifdef CAPI
                    p = align == 64 ? kfr_reallocate(id ? old.p : nullptr, cnt) : kfr_reallocate_aligned(id ? old.p : nullptr, cnt, align);
#else
                    p = details::aligned_reallocate(id ? old.p : nullptr, cnt, align);
#endif
                }
                r.i("id", id).i("n", n).i("align", align).i("fail", fail).b("null", !p);
                r.b("aligned", !p || (size_t)p % align == 0).i("size", p ? (long long)SIZE_OF(p) : 0);
                size_t keep = 0, common = p ? std::min(old.n, cnt) : 0;
                while (keep < common && ((unsigned char*)p)[keep] == (unsigned char)(old.fill + keep * 7))
                    ++keep;
                r.b("kept", keep == common);
                if (id && last && (p || cnt == 0))
                    live.erase(id);
                r.i("nid", p && cnt < 100000 ? add(p, cnt, align) : 0);
            }
            else if (o == "N") // objects with aligned new
            {
                int kind = in.i();
                bool al;
                {
                    guard g;
                    if (kind)
                    {
                        auto* q = new big_object;
                        al      = q && (size_t)q % 128 == 0;
                        std::memset(q->c, 1, sizeof(q->c));
                        delete q;
                    }
                    else
                    {
                        auto* q = new small_object;
                        al      = q && (size_t)q % 64 == 0;
                        std::memset(q->c, 1, sizeof(q->c));
                        delete q;
                    }
                }
                r.i("kind", kind).b("aligned", al);
            }
            else if (o == "U") // a container and an automatic block: as many come back as go out
            {
                int n = in.i();
                bool al;
                {
                    guard g;
                    univector<f32> v(n);
                    autofree<f64> a(n), b;
                    al = (size_t)v.data() % 64 == 0 && (size_t)a.data() % 64 == 0;
                    for (int i = 0; i < n; ++i)
                        v[i] = 1, a[i] = 2;
                    v.resize(2 * n + 1);
                    b  = std::move(a);
                    al = al && a.data() == nullptr && (n == 0 || b[0] == 2);
                }
                r.i("n", n).b("aligned", al);
            }
            else if (o == "W") // temporary buffers
            {
                int n = in.i();
                bool al = false, ok = true;
                {
                    guard g;
                    call_with_temp<256>(n, [&](u8* p) {
                        std::memset(p, 3, n);
                        call_with_temp<64, f64>(n, [&](f64* q) {
                            for (int i = 0; i < n; ++i)
                                q[i] = i;
                            al = (size_t)p % 64 == 0 && (size_t)q % 64 == 0;
                            for (int i = 0; i < n; ++i)
                                ok = ok && p[i] == 3;
                        });
                    });
                }
                r.i("n", n).b("aligned", al && ok);
            }
            else if (o == "T") // id threads each: every thread takes and gives up references
            {
                int id = in.i(), th = in.i(), each = in.i(), last = in.i();
                auto* p = live[id].p;
                for (int i = 0; i < th; ++i)
                    details::aligned_add_ref(p); // one for every thread
                auto* cnt = new counted;
                for (int i = 0; i < th; ++i)
                    cnt->addref();
                if (last)
                    live.erase(id);
                std::atomic<int> go{ 0 };
                std::vector<std::thread> ts;
                {
                    guard g;
                    for (int i = 0; i < th; ++i)
                        ts.emplace_back([&, i] {
                            go++;
                            while (go < th)
                                ;
                            for (int k = 0; k < each; ++k)
                            {
                                details::aligned_add_ref(p);
                                cnt->addref();
                                details::aligned_free(p);
                                cnt->release();
                            }
                            details::aligned_free(p); // its own; the last one frees the block
                            cnt->release();
                        });
                    if (last)
                        details::aligned_free(p);
                    for (auto& t : ts)
                        t.join();
                }
                r.i("id", id).i("last", last).i("objects", counted_live.load());
            }
            state(r);
        }
    }
}
