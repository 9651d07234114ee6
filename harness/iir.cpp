// Conformance harness for Iir.tla: cascades of second-order sections.
// Script line: v nsec (a1 a2 b0 b1 b2)* seed p nops { F o mode n | R o | S o 5*nsec.. | C a b }
#include <kfr/base.hpp>
#include <kfr/dsp/biquad.hpp>
#include <memory>
#include "vh.hpp"
using namespace kfr;
using L = std::vector<long long>;

static unsigned long long rs;
static long long rnd(int lo, int hi)
{
    rs = rs * 6364136223846793005ull + 1442695040888963407ull;
    return lo + (long long)((rs >> 33) % (unsigned)(hi - lo + 1));
}
template <typename T>
std::vector<biquad_section<T>> mk(const L& s)
{
    std::vector<biquad_section<T>> r;
    for (size_t i = 0; i + 4 < s.size(); i += 5)
        r.push_back({ T(1), T(s[i]), T(s[i + 1]), T(s[i + 2]), T(s[i + 3]), T(s[i + 4]) });
    return r;
}
struct obj
{
    virtual ~obj() {}
    virtual bool feed(int mode, const L& in, L& out) = 0;
    virtual bool reset() { return false; }
    virtual bool set(const L&) { return false; }
    virtual std::unique_ptr<obj> clone() { return nullptr; }
    virtual int lat() { return 0; }
};
template <typename T, typename Apply>
bool buffers(int mode, const L& in, L& out, Apply&& apply)
{
    size_t n = in.size();
    vh::guarded<T> src(n), dst(n, 0xA7);
    for (size_t i = 0; i < n; ++i)
        src[i] = T(in[i]);
    bool ok = true;
    T* res;
    if (mode == 0)
    {
        apply(src.data(), src.data(), n);
        res = src.data();
    }
    else
    {
        apply(dst.data(), src.data(), n);
        res = dst.data();
        for (size_t i = 0; i < n; ++i)
            ok = ok && src[i] == T(in[i]);
    }
    ok = ok && src.check() && dst.check();
    out.clear();
    for (size_t i = 0; i < n; ++i)
        out.push_back(vh::num(res[i]));
    return ok;
}
template <typename T>
struct filt : obj
{
    iir_filter<T> f;
    filt(const L& s) : f(iir_params<T>(mk<T>(s))) {}
    bool feed(int mode, const L& in, L& out) override
    {
        if (mode <= 1)
            return buffers<T>(mode, in, out, [&](T* d, const T* s, size_t c) { if (d == s) f.apply(d, c); else f.apply(d, s, c); });
        size_t n = in.size();
        univector<T> x(n), y(n);
        for (size_t i = 0; i < n; ++i)
            x[i] = T(in[i]);
        if (mode == 2)
        {
            y = x;
            f.apply(y);
        }
        else if (mode == 3)
        {
            univector<T> e;
            f.apply(e, x);
            y = e;
        }
        else
            f.apply(y, x * T(1));
        out.clear();
        for (auto v : y)
            out.push_back(vh::num(v));
        return y.size() == n;
    }
    bool reset() override
    {
        f.reset();
        return true;
    }
    bool set(const L& s) override
    {
        f = iir_filter<T>(iir_params<T>(mk<T>(s)));
        return true;
    }
};
// state kept by the caller
template <typename T, size_t N>
struct exprf : obj
{
    iir_state<T, N> st;
    exprf(const L& s) : st(iir_params<T, N>(mk<T>(s))) {}
    bool feed(int mode, const L& in, L& out) override
    {
        return buffers<T>(mode & 1, in, out, [&](T* d, const T* s, size_t c)
                          { make_univector(d, c) = iir(make_univector(s, c), std::ref(st)); });
    }
    std::unique_ptr<obj> clone() override { return std::make_unique<exprf>(*this); }
    bool reset() override
    {
        st = iir_state<T, N>(iir_params<T, N>(st.params));
        return true;
    }
};
// the form that delays by sections-1 samples
template <typename T, size_t N>
struct exprl : obj
{
    using E = expression_iir_l<N, T, univector_ref<const T>, true>;
    iir_state<T, N> st;
    exprl(const L& s) : st(iir_params<T, N>(mk<T>(s))) {}
    int lat() override { return N - 1; }
    bool feed(int mode, const L& in, L& out) override
    {
        return buffers<T>(mode & 1, in, out, [&](T* d, const T* s, size_t c)
                          { make_univector(d, c) = E(make_univector(s, c), std::ref(st)); });
    }
    std::unique_ptr<obj> clone() override { return std::make_unique<exprl>(*this); }
};
template <template <typename, size_t> class X, typename T>
std::unique_ptr<obj> sized(const L& s)
{
    switch (s.size() / 5)
    {
    case 1: return std::make_unique<X<T, 1>>(s);
    case 2: return std::make_unique<X<T, 2>>(s);
    case 3: return std::make_unique<X<T, 3>>(s);
    case 4: return std::make_unique<X<T, 4>>(s);
    case 5: return std::make_unique<X<T, 5>>(s);
    case 6: return std::make_unique<X<T, 6>>(s);
    case 7: return std::make_unique<X<T, 7>>(s);
    case 8: return std::make_unique<X<T, 8>>(s);
    default: return std::make_unique<X<T, 16>>(s);
    }
}
static std::unique_ptr<obj> make(int v, const L& s)
{
    switch (v)
    {
    case 0: return std::make_unique<filt<float>>(s);
    case 1: return std::make_unique<filt<double>>(s);
    case 2: return sized<exprf, float>(s);
    case 3: return sized<exprf, double>(s);
    case 4: return sized<exprl, float>(s);
    default: return sized<exprl, double>(s);
    }
}
static std::string js(const L& v)
{
    std::string s = "[";
    for (size_t i = 0; i < v.size(); ++i)
        s += (i ? "," : "") + std::to_string(v[i]);
    return s + "]";
}
static std::string sec(const L& v)
{
    std::string s = "[";
    for (size_t i = 0; i < v.size(); i += 5)
        s += (i ? "," : "") + js(L(v.begin() + i, v.begin() + i + 5));
    return s + "]";
}
int main()
{
    vh::in_t in;
    while (in.line())
    {
        int v    = (int)in.i();
        size_t k = (size_t)in.i();
        L s(5 * k);
        for (auto& x : s)
            x = in.i();
        rs = (unsigned long long)in.i();
        in.i();
        int n = (int)in.i();
        std::unique_ptr<obj> o[3];
        o[1] = make(v, s);
        o[2] = make(v, s);
        printf("{\"ev\":\"init\",\"v\":%d,\"lat\":%d,\"sec\":%s}\n", v, v >= 4 && k > 8 ? 15 : o[1]->lat(), sec(s).c_str());
        fflush(stdout);
        while (n-- > 0)
        {
            std::string kd = in.word();
            if (kd == "F")
            {
                int ob = (int)in.i(), mode = (int)in.i();
                size_t sz = (size_t)in.i();
                L x, y;
                for (size_t i = 0; i < sz; ++i)
                    x.push_back(rnd(-3, 3));
                bool ok = o[ob]->feed(mode, x, y);
                printf("{\"ev\":\"feed\",\"o\":%d,\"mode\":%d,\"ok\":%s,\"in\":%s,\"out\":%s}\n", ob, mode, ok ? "true" : "false",
                       js(x).c_str(), js(y).c_str());
            }
            else if (kd == "R")
            {
                int ob = (int)in.i();
                if (o[ob]->reset())
                    printf("{\"ev\":\"reset\",\"o\":%d}\n", ob);
            }
            else if (kd == "S")
            {
                int ob = (int)in.i();
                L t(5 * k);
                for (auto& x : t)
                    x = in.i();
                if (o[ob]->set(t))
                    printf("{\"ev\":\"set\",\"o\":%d,\"sec\":%s}\n", ob, sec(t).c_str());
            }
            else if (kd == "C")
            {
                int a = (int)in.i(), b = (int)in.i();
                auto c = o[a]->clone();
                if (c)
                {
                    o[b] = std::move(c);
                    printf("{\"ev\":\"copy\",\"a\":%d,\"b\":%d}\n", a, b);
                }
            }
            fflush(stdout);
        }
    }
}
