// The cosine transform plan; see spec/Dct.tla.  Script line: variant N nops ops...
#include <kfr/dft.hpp>
#include "vh.hpp"
#include "gbuf.hpp"
using namespace kfr;
using vh::rec;

template <typename T>
struct session
{
    size_t N;
    dct_plan<T> plan;
    std::vector<T> store[4];
    double tol  = sizeof(T) == 4 ? 1e-4 : 1e-10;
    double itol = sizeof(T) == 4 ? 0.02 : 1e-6;
    session(size_t n) : N(n), plan(n) {}

    double cosd(long long i) { return (double)cosl(M_PIl * (i % (4 * (long long)N)) / (2 * N)); }
    std::vector<double> dct2(const std::vector<double>& x)
    {
        std::vector<double> r(N);
        for (size_t k = 0; k < N; ++k)
            for (size_t n = 0; n < N; ++n)
                r[k] += x[n] * cosd((long long)(k * (2 * n + 1)));
        return r;
    }
    std::vector<double> dct3(const std::vector<double>& x)
    {
        std::vector<double> r(N);
        for (size_t n = 0; n < N; ++n)
            for (size_t k = 0; k < N; ++k)
                r[n] += (k == 0 ? 0.5 : 1.0) * x[k] * cosd((long long)(k * (2 * n + 1)));
        return r;
    }
    struct outcome
    {
        bool ok, same;
        std::vector<T> out;
    };
    outcome go(int dir, const std::vector<T>& src, bool inplace, int mode, int align)
    {
        gbuf temp(plan.temp_size);
        outcome r;
        r.same    = true;
        size_t sa = (align & 1) ? sizeof(T) : 0, da = (align & 2) ? sizeof(T) : 0;
        auto run = [&](T* o, const T* i)
        {
            if (mode == 2)
            {
                univector<T, 0> uo(o, N), ui(const_cast<T*>(i), N);
                univector<u8, 0> ut(temp.data(), plan.temp_size);
                plan.execute(uo, ui, ut, dir == 1);
            }
            else
                plan.execute(o, i, mode == 1 ? nullptr : temp.data(), dir == 1);
        };
        gbuf a(N * sizeof(T), sa), b(N * sizeof(T), da);
        std::memcpy(a.data(), src.data(), N * sizeof(T));
        T* o = (T*)(inplace ? a.data() : b.data());
        run(o, (const T*)a.data());
        r.ok = a.check() && b.check() && temp.check();
        if (!inplace)
            r.same = std::memcmp(a.data(), src.data(), N * sizeof(T)) == 0;
        r.out.assign(o, o + N);
        return r;
    }
    void load(int b, const std::string& dom, unsigned long long seed)
    {
        std::vector<long long> v(N);
        unsigned long long s = seed * 2654435761ull + 12345;
        std::vector<double> x(N);
        for (size_t i = 0; i < N; ++i)
        {
            s    = s * 6364136223846793005ull + 1442695040888963407ull;
            v[i] = (long long)((s >> 40) % 7) - 3;
            x[i] = (double)v[i];
        }
        if (dom == "k")
            x = dct2(x);
        store[b].assign(x.begin(), x.end());
        rec("load").i("b", b).str("dom", dom).list("v", v).out();
    }
    void exec(int dir, int dst, int src, int mode, int align, const std::string& dom, int pow)
    {
        auto o       = go(dir, store[src], dst == src, mode, align);
        double scale = std::pow(N / 2.0, pow);
        std::vector<double> x(o.out.begin(), o.out.end());
        if (dom == "k")
        {
            x = dct3(x);
            scale *= N / 2.0;
        }
        std::vector<long long> v;
        for (double d : x)
            v.push_back(vh::num(d / scale, itol));
        store[dst] = o.out;
        rec("exec").i("dir", dir).i("dst", dst).i("src", src).str("dom", dom).i("pow", pow).b("ok", o.ok).b("same", o.same).list("v", v).out();
    }
    void impulse(int dir, size_t p, int mode, bool inplace, int align)
    {
        std::vector<T> in(N, T(0));
        in[p]    = 1;
        auto o   = go(dir, in, inplace, mode, align);
        double m = 0;
        for (T x : o.out)
            m = std::max(m, std::fabs((double)x));
        bool half = N > 0 && m < 0.6 && m > 0.4 && dir == 1;
        std::vector<long long> idx;
        for (T x : o.out)
        {
            double d = half ? 2.0 * x : x;
            if (!(std::fabs(d) < 1.5))
            {
                idx.push_back(vh::NOT_INT);
                continue;
            }
            long long i = (long long)std::nearbyint(std::acos(std::max(-1.0, std::min(1.0, d))) * 2 * N / M_PI);
            idx.push_back(std::fabs(cosd(i) - d) < tol ? i : vh::NOT_INT);
        }
        rec("imp").i("dir", dir).i("p", (long long)p).b("half", half).b("ok", o.ok).b("same", o.same).list("idx", idx).out();
    }
    void script(vh::in_t& in)
    {
        size_t nops = (size_t)in.i();
        for (size_t j = 0; j < nops; ++j)
        {
            std::string w = in.word();
            if (w == "L")
            {
                int b         = (int)in.i();
                std::string d = in.word();
                load(b, d, (unsigned long long)in.i());
            }
            else if (w == "X")
            {
                int dir = (int)in.i(), dst = (int)in.i(), src = (int)in.i(), mode = (int)in.i(), al = (int)in.i();
                std::string dom = in.word();
                int pow         = (int)in.i();
                exec(dir, dst, src, mode, al, dom, pow);
            }
            else if (w == "I")
            {
                int dir  = (int)in.i();
                size_t p = (size_t)in.i();
                int mode = (int)in.i(), inp = (int)in.i(), al = (int)in.i();
                impulse(dir, p, mode, inp, al);
            }
            else if (w == "A")
            {
                int dir = (int)in.i(), mode = (int)in.i();
                for (size_t p = 0; p < N; ++p)
                    impulse(dir, p, mode, p % 2, (int)(p / 2 % 4));
            }
            else
                std::exit(4);
        }
    }
};
int main()
{
    vh::in_t in;
    while (in.line())
    {
        int v    = (int)in.i();
        size_t N = (size_t)in.i();
        rec("init").i("n", (long long)N).out();
        if (v == 0)
            session<float>(N).script(in);
        else
            session<double>(N).script(in);
    }
}
