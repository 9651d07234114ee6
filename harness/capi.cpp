// The C functions next to the C++ objects they stand for; see spec/Capi.tla.  Script line: nops ops...
#define KFR_NO_C_COMPLEX_TYPES 1
#include <kfr/capi.h>
#include <kfr/dft.hpp>
#include <kfr/dsp.hpp>
#include <functional>
#include <map>
#include <memory>
#include <new>
#include <thread>
#include "vh.hpp"
#include "gbuf.hpp"
using namespace kfr;
using vh::rec;

// ---- allocations made by the C functions: counted, and one of them can be made to fail ----
extern "C" void* __real_malloc(size_t);
extern "C" void __real_free(void*);
static thread_local bool watching = false;
static long live = 0, countdown = 0;
static bool fails() { return watching && countdown > 0 && --countdown == 0; }
extern "C" void* __wrap_malloc(size_t n)
{
    if (fails() || n > ((size_t)1 << 40))
        return nullptr;
    void* p = __real_malloc(n);
    if (watching && p)
        ++live;
    return p;
}
extern "C" void __wrap_free(void* p)
{
    if (watching && p)
        --live;
    __real_free(p);
}
void* operator new(size_t n)
{
    if (fails() || n > ((size_t)1 << 40))
        throw std::bad_alloc();
    void* p = __real_malloc(n ? n : 1);
    if (!p)
        throw std::bad_alloc();
    if (watching)
        ++live;
    return p;
}
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept
{
    if (watching && p)
        --live;
    __real_free(p);
}
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
struct watch
{
    watch(long fail = 0) { countdown = fail, watching = true; }
    ~watch() { watching = false, countdown = 0; }
};

// ---- the C functions by precision ----
#define C_API(T, S)                                                                                          \
    template <>                                                                                              \
    struct api<T>                                                                                            \
    {                                                                                                        \
        static void* make(const std::string& k, const std::vector<size_t>& p, const unsigned* sh, const T* a, size_t n, int x) \
        {                                                                                                    \
            if (k == "dft")                                                                                  \
                return kfr_dft_create_plan_##S(p[0]);                                                        \
            if (k == "dft2")                                                                                 \
                return kfr_dft_create_2d_plan_##S(p[0], p[1]);                                               \
            if (k == "dft3")                                                                                 \
                return kfr_dft_create_3d_plan_##S(p[0], p[1], p[2]);                                         \
            if (k == "dftmd")                                                                                \
                return kfr_dft_create_md_plan_##S(n, sh);                                                    \
            if (k == "real")                                                                                 \
                return kfr_dft_real_create_plan_##S(p[0], x ? CCs : Perm);                                   \
            if (k == "real2")                                                                                \
                return kfr_dft_real_create_2d_plan_##S(p[0], p[1], x != 0);                                  \
            if (k == "real3")                                                                                \
                return kfr_dft_real_create_3d_plan_##S(p[0], p[1], p[2], x != 0);                            \
            if (k == "realmd")                                                                               \
                return kfr_dft_real_create_md_plan_##S(n, sh, x != 0);                                       \
            if (k == "dct")                                                                                  \
                return kfr_dct_create_plan_##S(p[0]);                                                        \
            if (k == "fir")                                                                                  \
                return kfr_filter_create_fir_plan_##S(a, n);                                                 \
            if (k == "conv")                                                                                 \
                return kfr_filter_create_convolution_plan_##S(a, n, x);                                      \
            return kfr_filter_create_iir_plan_##S(a, n / 6);                                                 \
        }                                                                                                    \
        static size_t size(int c, void* v)                                                                   \
        {                                                                                                    \
            return c == 0 ? kfr_dft_get_size_##S((D*)v) : c == 1 ? kfr_dft_real_get_size_##S((R*)v) : kfr_dct_get_size_##S((K*)v); \
        }                                                                                                    \
        static size_t temp(int c, void* v)                                                                   \
        {                                                                                                    \
            return c == 0 ? kfr_dft_get_temp_size_##S((D*)v) : c == 1 ? kfr_dft_real_get_temp_size_##S((R*)v) : kfr_dct_get_temp_size_##S((K*)v); \
        }                                                                                                    \
        static void exec(int c, int dir, void* v, T* o, const T* i, u8* t)                                   \
        {                                                                                                    \
            if (c == 0)                                                                                      \
                dir ? kfr_dft_execute_inverse_##S((D*)v, o, i, t) : kfr_dft_execute_##S((D*)v, o, i, t);     \
            else if (c == 1)                                                                                 \
                dir ? kfr_dft_real_execute_inverse_##S((R*)v, o, i, t) : kfr_dft_real_execute_##S((R*)v, o, i, t); \
            else                                                                                             \
                dir ? kfr_dct_execute_inverse_##S((K*)v, o, i, t) : kfr_dct_execute_##S((K*)v, o, i, t);     \
        }                                                                                                    \
        static void process(void* v, T* o, const T* i, size_t n) { kfr_filter_process_##S((L*)v, o, i, n); } \
        static void reset(void* v) { kfr_filter_reset_##S((L*)v); }                                          \
        static void del(int c, void* v)                                                                      \
        {                                                                                                    \
            c == 0 ? kfr_dft_delete_plan_##S((D*)v) : c == 1 ? kfr_dft_real_delete_plan_##S((R*)v) : c == 2 ? kfr_dct_delete_plan_##S((K*)v) : kfr_filter_delete_plan_##S((L*)v); \
        }

template <typename T>
struct api;
C_API(float, f32)
using D = KFR_DFT_PLAN_F32; using R = KFR_DFT_REAL_PLAN_F32; using K = KFR_DCT_PLAN_F32; using L = KFR_FILTER_F32;
};
C_API(double, f64)
using D = KFR_DFT_PLAN_F64; using R = KFR_DFT_REAL_PLAN_F64; using K = KFR_DCT_PLAN_F64; using L = KFR_FILTER_F64;
};
static int cls(const std::string& k)
{
    return k.rfind("dft", 0) == 0 ? 0 : k.rfind("real", 0) == 0 ? 1 : k == "dct" ? 2 : 3;
}

// ---- the C++ objects ----
template <typename T>
struct twin
{
    std::function<void(int, T*, const T*, u8*)> exec;
    std::shared_ptr<filter<T>> flt;
    size_t temp = 0, size = 0;
    template <typename P>
    void real_plan(P p)
    {
        auto s = std::make_shared<P>(std::move(p));
        temp   = s->temp_size;
        exec   = [s](int dir, T* o, const T* i, u8* t)
        {
            if (dir)
                s->execute(o, (const complex<T>*)i, t, ctrue);
            else
                s->execute((complex<T>*)o, i, t, cfalse);
        };
    }
    template <typename P>
    void plan(P p)
    {
        auto s = std::make_shared<P>(std::move(p));
        temp   = s->temp_size;
        exec   = [s](int dir, T* o, const T* i, u8* t) { s->execute((complex<T>*)o, (const complex<T>*)i, t, dir != 0); };
    }
    twin(const std::string& k, const std::vector<size_t>& p, const std::vector<T>& a, int x)
    {
        shape<dynamic_shape> dyn(p.size());
        size = 1;
        for (size_t i = 0; i < p.size(); ++i)
            dyn[i] = p[i], size *= p[i];
        if (k == "dft")
            plan(dft_plan<T>(p[0]));
        else if (k == "dft2")
            plan(dft_plan_md<T, 2>(shape<2>{ p[0], p[1] }));
        else if (k == "dft3")
            plan(dft_plan_md<T, 3>(shape<3>{ p[0], p[1], p[2] }));
        else if (k == "dftmd")
            plan(dft_plan_md<T, dynamic_shape>(dyn));
        else if (k == "real")
            real_plan(dft_plan_real<T>(p[0], x ? dft_pack_format::CCs : dft_pack_format::Perm));
        else if (k == "real2")
            real_plan(dft_plan_md_real<T, 2>(shape<2>{ p[0], p[1] }, x != 0));
        else if (k == "real3")
            real_plan(dft_plan_md_real<T, 3>(shape<3>{ p[0], p[1], p[2] }, x != 0));
        else if (k == "realmd")
            real_plan(dft_plan_md_real<T, dynamic_shape>(dyn, x != 0));
        else if (k == "dct")
        {
            auto s = std::make_shared<dct_plan<T>>(p[0]);
            temp   = s->temp_size;
            exec   = [s](int dir, T* o, const T* i, u8* t) { s->execute(o, i, t, dir != 0); };
        }
        else if (k == "fir")
            flt = std::make_shared<fir_filter<T>>(make_univector(a.data(), a.size()));
        else if (k == "conv")
            flt = std::make_shared<convolve_filter<T>>(make_univector(a.data(), a.size()), x ? x : 1024);
        else
        {
            std::vector<biquad_section<T>> s;
            for (size_t i = 0; i < a.size() / 6; ++i)
                s.push_back(biquad_section<T>(a[i * 6], a[i * 6 + 1], a[i * 6 + 2], a[i * 6 + 3], a[i * 6 + 4], a[i * 6 + 5]));
            flt = std::make_shared<iir_filter<T>>(iir_params<T>{ s.data(), s.size() });
        }
    }
};

static bool message()
{
    const char* e = kfr_last_error();
    return e && *e && std::strlen(e) < 256;
}

struct object
{
    virtual ~object() {}
    virtual void run(const std::string& op, vh::in_t& in, rec& r) = 0;
    virtual void del()                                               = 0;
};
template <typename T>
struct object_of : object
{
    std::string k;
    void* c = nullptr;
    int cl, x;
    std::vector<size_t> p;
    std::unique_ptr<twin<T>> t;
    double tol = sizeof(T) == 4 ? 2e-3 : 1e-8;

    // everything about buffers: sizes in scalars
    size_t total() const { return t->size; }
    size_t spectrum() const // of a real plan
    {
        if (k == "real")
            return x ? p[0] + 2 : p[0];
        return total() / p.back() * (p.back() / 2 + 1) * 2;
    }
    size_t in_size(int dir) const { return cl == 0 ? 2 * total() : cl == 2 ? total() : dir ? spectrum() : total(); }
    size_t out_size(int dir) const
    {
        return cl == 1 ? (dir ? (k != "real" && x ? spectrum() : total()) : spectrum()) : in_size(dir);
    }
    bool ok = true, same = true;
    std::vector<T> go(int dir, std::vector<T> in, int notemp, int inplace)
    {
        size_t n = std::max(in_size(dir), out_size(dir)), bytes = n * sizeof(T);
        in.resize(n);
        std::vector<T> res[2];
        for (int w = 0; w < 2; ++w)
        {
            gbuf a(bytes, 0), b(bytes, 0), tmp(t->temp);
            std::memcpy(a.data(), in.data(), bytes);
            T *i = (T*)a.data(), *o = inplace ? i : (T*)b.data();
            u8* tp = notemp ? nullptr : (u8*)tmp.data();
            if (w)
                t->exec(dir, o, i, tp);
            else
            {
                watch g;
                api<T>::exec(cl, dir, c, o, i, tp);
            }
            ok = ok && a.check() && b.check() && tmp.check();
            if (!inplace && !(cl == 1))
                ok = ok && std::memcmp(a.data(), in.data(), in_size(dir) * sizeof(T)) == 0;
            res[w].assign(o, o + out_size(dir));
        }
        same = same && std::memcmp(res[0].data(), res[1].data(), res[0].size() * sizeof(T)) == 0;
        return res[0];
    }
    long long root(double re, double im, size_t P)
    {
        if (std::fabs(re * re + im * im - 1) > 1e-3)
            return vh::NOT_INT;
        double a   = std::atan2(im, re) / (2 * M_PI) * 4 * P;
        long long q = std::llround(a);
        if (std::fabs(a - q) > 0.1)
            return vh::NOT_INT;
        return ((q % (4 * (long long)P)) + 4 * P) % (4 * P);
    }
    long long cosine(double v)
    {
        size_t N = p[0];
        for (size_t i = 0; i <= 2 * N; ++i)
            if (std::fabs(std::cos(M_PI * i / (2 * N)) - v) < 1e-4)
                return i;
        return vh::NOT_INT;
    }
    void run(const std::string& op, vh::in_t& in, rec& r) override
    {
        ok = same = true;
        if (op == "query")
        {
            size_t s, q;
            {
                watch g;
                s = api<T>::size(cl, c), q = api<T>::temp(cl, c);
            }
            r.i("size", s);
            same = q == t->temp;
        }
        else if (op == "imp")
        {
            int dir = in.i();
            size_t pos = in.i();
            int q = in.i(), notemp = in.i(), inplace = in.i();
            if (cl == 1)
                dir = 0;
            if (cl)
                q = 0;
            size_t P = total();
            std::vector<T> a(in_size(dir));
            if (cl)
                a[pos] = dir && pos == 0 ? 2 : 1;
            else
                a[2 * pos] = q == 0 ? 1 : q == 2 ? -1 : 0, a[2 * pos + 1] = q == 1 ? 1 : q == 3 ? -1 : 0;
            auto o      = go(dir, a, notemp, inplace);
            bool packed = k == "real" && !x;
            std::vector<long long> v;
            if (cl == 2)
                for (auto y : o)
                    v.push_back(cosine(y));
            else
                for (size_t i = 0; i < o.size() / 2; ++i)
                    v.push_back(packed && i == 0 ? (std::fabs(o[0] - 1) < tol ? vh::num(o[1], tol) : vh::NOT_INT) : root(o[2 * i], o[2 * i + 1], P));
            r.i("dir", dir).i("p", pos).i("q", q).b("packed", packed).list("out", v);
        }
        else if (op == "round")
        {
            unsigned long long seed = in.i();
            int notemp = in.i(), inplace = in.i();
            size_t n = cl == 0 ? 2 * total() : total();
            std::vector<long long> v(n);
            for (auto& y : v)
                seed = seed * 6364136223846793005ull + 1442695040888963407ull, y = (long long)((seed >> 40) % 9) - 4;
            std::vector<T> a(v.begin(), v.end());
            a = go(0, a, notemp, inplace);
            a = go(1, a, notemp, inplace);
            double scale = cl == 2 ? total() / 2.0 : total();
            std::vector<double> o;
            for (size_t i = 0; i < n; ++i)
                o.push_back(a[i] / scale);
            r.list("v", v).nums("out", o.data(), n, tol);
        }
        else if (op == "proc")
        {
            int inplace = in.i();
            auto b      = in.list();
            size_t n    = b.size();
            std::vector<T> res[2];
            for (int w = 0; w < 2; ++w)
            {
                gbuf a(n * sizeof(T), 0), d(n * sizeof(T), 0);
                T *i = (T*)a.data(), *o = inplace ? i : (T*)d.data();
                for (size_t j = 0; j < n; ++j)
                    i[j] = (T)b[j];
                if (w)
                    t->flt->apply(o, i, n);
                else
                {
                    watch g;
                    api<T>::process(c, o, i, n);
                }
                ok = ok && a.check() && d.check();
                for (size_t j = 0; !inplace && j < n; ++j)
                    ok = ok && i[j] == (T)b[j];
                res[w].assign(o, o + n);
            }
            same = n == 0 || std::memcmp(res[0].data(), res[1].data(), n * sizeof(T)) == 0;
            r.list("b", b).nums("out", res[0].data(), n, k == "conv" ? tol : 0);
        }
        else if (op == "reset")
        {
            {
                watch g;
                api<T>::reset(c);
            }
            t->flt->reset();
        }
        r.b("ok", ok).b("same", same);
    }
    void del() override
    {
        watch g;
        api<T>::del(cl, c);
    }
};
static std::map<int, std::unique_ptr<object>> objs;
template <typename T>
static void make(int slot, const std::string& k, int prec, int null, int fail, int x, const std::vector<long long>& p, bool quiet = false)
{
    std::vector<size_t> sz;
    std::vector<unsigned> sh;
    std::vector<T> a;
    for (size_t i = 0; i < p.size(); ++i)
    {
        sz.push_back(p[i] == -1 ? SIZE_MAX : p[i] == -2 ? (size_t)1 << 60 : (size_t)p[i]);
        sh.push_back((unsigned)p[i]);
        if (k == "iir" && i % 5 == 0)
            a.push_back(1);
        a.push_back((T)p[i]);
    }
    // section: a0 a1 a2 b0 b1 b2 from <<a1,a2,b0,b1,b2>>
    static const T none[1] = { 0 };
    static const unsigned none_u[1] = { 0 };
    auto y = std::make_unique<object_of<T>>();
    long before = live;
    {
        watch g(fail);
        y->c = api<T>::make(k, sz, null ? nullptr : sh.empty() ? none_u : sh.data(), null ? nullptr : a.empty() ? none : a.data(), k == "dftmd" || k == "realmd" ? sh.size() : a.size(), x);
    }
    long leak = live - before;
    y->k = k, y->cl = cls(k), y->x = x, y->p = sz;
    bool m = message();
    // the message depends on the failed call alone: the same call in a thread without history
    bool text = true;
    if (!y->c && !fail)
    {
        std::string msg = kfr_last_error();
        std::thread t([&] {
            void* q = api<T>::make(k, sz, null ? nullptr : sh.empty() ? none_u : sh.data(), null ? nullptr : a.empty() ? none : a.data(), k == "dftmd" || k == "realmd" ? sh.size() : a.size(), x);
            text    = !q && msg == kfr_last_error();
        });
        t.join();
    }
    if (!quiet)
        rec("new").i("slot", slot).str("kind", k).i("prec", prec).b("null", null).i("fail", fail).i("x", x).list("p", p).b("isnull", !y->c).i("leak", leak).b("text", text).b("err", m).out();
    if (y->c)
    {
        y->t       = std::make_unique<twin<T>>(k, sz, a, x);
        objs[slot] = std::move(y);
    }
}
static void remove(int slot)
{
    auto it = objs.find(slot);
    if (it == objs.end())
    {
        watch g; // all of them take null
        api<float>::del(slot % 4, nullptr);
        api<double>::del((slot + 1) % 4, nullptr);
        return;
    }
    it->second->del();
    objs.erase(it);
}

int main()
{
    // things made once
    {
        for (auto k : { "dft", "dft2", "dft3", "dftmd", "real", "real2", "real3", "realmd", "dct", "fir", "conv", "iir" })
        {
            std::vector<long long> p(std::string(k) == "iir" ? 5 : 4, 4);
            make<float>(1, k, 0, 0, 0, 1, p, true);
            remove(1);
            make<double>(1, k, 0, 0, 0, 1, p, true);
            remove(1);
        }
        live = 0;
    }
    vh::in_t in;
    while (in.line())
    {
        remove(1); // no error any more
        rec("init").b("err", message()).out();
        live = 0;
        for (size_t nops = in.i(); nops--;)
        {
            std::string o = in.word();
            if (o == "new")
            {
                int slot = in.i();
                std::string k = in.word();
                int prec = in.i(), null = in.i(), fail = in.i(), x = in.i();
                auto p = in.list();
                if (objs.count(slot))
                {
                    remove(slot);
                    rec("del").i("slot", slot).b("err", message()).out();
                }
                if (prec)
                    make<double>(slot, k, prec, null, fail, x, p);
                else
                    make<float>(slot, k, prec, null, fail, x, p);
            }
            else if (o == "del")
            {
                int slot = in.i();
                remove(slot);
                rec("del").i("slot", slot).b("err", message()).out();
            }
            else if (o == "thread")
            {
                bool fresh, there;
                std::thread t([&] {
                    fresh = message();
                    void* q = kfr_dft_real_create_plan_f32(3, CCs);
                    there   = !q && message();
                });
                t.join();
                rec("thread").b("fresh", fresh).b("there", there).b("err", message()).out();
            }
            else
            {
                int slot = in.i();
                rec r(o.c_str());
                r.i("slot", slot);
                objs.at(slot)->run(o, in, r);
                r.b("err", message()).out();
            }
        }
        while (!objs.empty())
            remove(objs.begin()->first);
        rec("end").i("left", live).out();
    }
}
