// Conformance harness for Ring.tla.  Script line: v size nops { W c n | R c n | V c N | Q c N | S c x | T c x | P c k }
#include <kfr/base.hpp>
#include <memory>
#include "vh.hpp"
using namespace kfr;
static long long counter_ = 0;
template <typename T> T mkv(long long x) { return T(x); }
template <> complex<float> mkv<complex<float>>(long long x) { return complex<float>(float(x), float(x + 1)); }
template <typename T> long long prj(T x) { return vh::num(x); }
template <> long long prj<complex<float>>(complex<float> x) { return x.imag() == x.real() + 1 ? vh::num(x.real()) : vh::NOT_INT; }

template <typename T, typename V>
void session(vh::in_t& in, V& v, std::function<bool()> guard, int nops)
{
    size_t cur[3] = { 0, 0, 0 };
    counter_      = 0;
    for (size_t i = 0; i < v.size(); ++i)
        v[i] = mkv<T>(++counter_);
    auto mem = [&] { std::vector<long long> m; for (auto& x : v) m.push_back(prj<T>(x)); return m; };
    vh::rec("init").list("mem", mem()).out();
    while (nops-- > 0)
    {
        std::string k = in.word();
        int c         = (int)in.i();
        size_t n      = (size_t)in.i();
        std::vector<long long> src, out;
        bool ok = true;
        auto put = [&](size_t m) { for (size_t i = 0; i < m; ++i) src.push_back(1 + (++counter_ % 100)); };
        const char* ev;
        if (k == "W")
        {
            ev = "write";
            put(n);
            vh::guarded<T> b(n);
            for (size_t i = 0; i < n; ++i) b[i] = mkv<T>(src[i]);
            v.ringbuf_write(cur[c], b.data(), n);
            ok = b.check();
        }
        else if (k == "S")
        {
            ev = "write";
            put(1);
            T x = mkv<T>(src[0]);
            v.ringbuf_write(cur[c], x);
        }
        else if (k == "V")
        {
            ev = "write";
            put(n);
            auto f = [&](auto N)
            {
                vec<T, decltype(N)::value> x;
                for (size_t i = 0; i < N; ++i) x[i] = mkv<T>(src[i]);
                v.ringbuf_write(cur[c], x);
            };
            n == 1 ? f(csize_t<1>{}) : n == 2 ? f(csize_t<2>{}) : n == 3 ? f(csize_t<3>{}) : n == 4 ? f(csize_t<4>{}) : f(csize_t<8>{});
        }
        else if (k == "R")
        {
            ev = "read";
            vh::guarded<T> b(n, 0xA7);
            v.ringbuf_read(cur[c], b.data(), n);
            for (size_t i = 0; i < n; ++i) out.push_back(prj<T>(b[i]));
            ok = b.check();
        }
        else if (k == "T")
        {
            ev = "read";
            n  = 1;
            T x = T(0);
            v.ringbuf_read(cur[c], x);
            out.push_back(prj<T>(x));
        }
        else if (k == "Q")
        {
            ev = "read";
            auto f = [&](auto N)
            {
                vec<T, decltype(N)::value> x(0);
                v.ringbuf_read(cur[c], x);
                for (size_t i = 0; i < N; ++i) out.push_back(prj<T>(x[i]));
            };
            n == 1 ? f(csize_t<1>{}) : n == 2 ? f(csize_t<2>{}) : n == 3 ? f(csize_t<3>{}) : n == 4 ? f(csize_t<4>{}) : f(csize_t<8>{});
        }
        else
        {
            ev = "step";
            v.ringbuf_step(cur[c], n);
        }
        ok = ok && guard();
        vh::rec(ev).i("c", c).i("n", n).list("in", src).list("out", out).i("cur", vh::num(cur[c])).list("mem", mem()).b("ok", ok).out();
        if (cur[c] >= v.size())
            cur[c] = 0; // already reported by the trace
    }
}
template <typename T>
void dyn(vh::in_t& in, size_t s, int n)
{
    univector<T> v(s);
    session<T>(in, v, [] { return true; }, n);
}
template <typename T>
void ref(vh::in_t& in, size_t s, int n)
{
    vh::guarded<T> g(s);
    univector_ref<T> v = make_univector(g.data(), s);
    session<T>(in, v, [&] { return g.check(); }, n);
}
template <typename T, size_t S>
void fix(vh::in_t& in, int n)
{
    univector<T, S> v;
    session<T>(in, v, [] { return true; }, n);
}
int main()
{
    vh::in_t in;
    while (in.line())
    {
        int v    = (int)in.i();
        size_t s = (size_t)in.i();
        int n    = (int)in.i();
        switch (v)
        {
        case 0: dyn<float>(in, s, n); break;
        case 1: dyn<double>(in, s, n); break;
        case 2: ref<int8_t>(in, s, n); break;
        case 3: ref<complex<float>>(in, s, n); break;
        case 4:
            switch (s)
            {
            case 1: fix<int, 1>(in, n); break;
            case 2: fix<int, 2>(in, n); break;
            case 3: fix<int, 3>(in, n); break;
            case 4: fix<int, 4>(in, n); break;
            case 5: fix<int, 5>(in, n); break;
            default: fix<int, 8>(in, n); break;
            }
            break;
        default: ref<float>(in, s, n); break;
        }
    }
}
