// Conformance harness for Fir.tla: FIR filters in all their forms.
// Script line: v ntaps taps.. seed p nops { F o mode n | R o | T o nt taps.. | C a b }
#include <kfr/base.hpp>
#include <kfr/dsp/fir.hpp>
#include <kfr/dft/convolution.hpp>
#include <memory>
#include "vh.hpp"
using namespace kfr;
using L  = std::vector<long long>;
using LL = std::vector<L>;

static unsigned long long rs;
static long long rnd(int lo, int hi)
{
    rs = rs * 6364136223846793005ull + 1442695040888963407ull;
    return lo + (long long)((rs >> 33) % (unsigned)(hi - lo + 1));
}

template <typename U>
struct planes
{
    static constexpr int count = 1;
    static U make(const LL& p, size_t i) { return U(p[0][i]); }
    static void split(U v, LL& p, double tol) { p[0].push_back(vh::num(v, tol)); }
};
template <typename S>
struct planes<complex<S>>
{
    static constexpr int count = 2;
    static complex<S> make(const LL& p, size_t i) { return complex<S>(S(p[0][i]), S(p[1][i])); }
    static void split(complex<S> v, LL& p, double tol)
    {
        p[0].push_back(vh::num(v.real(), tol));
        p[1].push_back(vh::num(v.imag(), tol));
    }
};

struct obj
{
    virtual ~obj() {}
    virtual int nplanes()                                             = 0;
    virtual bool feed(int mode, const LL& in, size_t n, LL& out)      = 0;
    virtual bool reset() { return false; }
    virtual bool taps(const L&) { return false; }
    virtual std::unique_ptr<obj> clone() { return nullptr; }
};

template <typename U, typename Apply>
bool via_buffers(int mode, const LL& in, size_t n, LL& out, Apply&& apply, double tol)
{
    // mode 0: in place, 1: separate buffers
    vh::guarded<U> src(n), dst(n, 0xA7);
    for (size_t i = 0; i < n; ++i)
        src[i] = planes<U>::make(in, i);
    bool ok = true;
    U* res;
    if (mode == 0)
    {
        apply(src.data(), src.data(), n);
        res = src.data();
    }
    else
    {
        apply(dst.data(), src.data(), n);
        res = dst.data();
        for (size_t i = 0; i < n; ++i)
            ok = ok && src[i] == planes<U>::make(in, i);
    }
    ok = ok && src.check() && dst.check();
    out.assign(planes<U>::count, {});
    for (size_t i = 0; i < n; ++i)
        planes<U>::split(res[i], out, tol);
    return ok;
}

// All the entry points of the abstract filter interface.
template <typename U, typename F>
bool feed_filter(F& f, int mode, const LL& in, size_t n, LL& out, double tol = 0)
{
    if (mode <= 1)
        return via_buffers<U>(mode, in, n, out, [&](U* d, const U* s, size_t c)
                              { if (d == s) f.apply(d, c); else f.apply(d, s, c); }, tol);
    univector<U> x(n), y(n);
    for (size_t i = 0; i < n; ++i)
        x[i] = planes<U>::make(in, i);
    if (mode == 2)
    {
        y = x;
        f.apply(y);
    }
    else if (mode == 3)
    {
        univector<U> e; // empty destination: resized to the source
        f.apply(e, x);
        y = e;
    }
    else
        f.apply(y, x * U(1)); // expression input
    out.assign(planes<U>::count, {});
    for (size_t i = 0; i < n; ++i)
        planes<U>::split(y[i], out, tol);
    return y.size() == n;
}

template <typename T>
univector<T> mk(const L& t)
{
    univector<T> r(t.size());
    for (size_t i = 0; i < t.size(); ++i)
        r[i] = T(t[i]);
    return r;
}

template <typename T, typename U>
struct filt : obj
{
    fir_filter<T, U> f;
    filt(const L& t, int p) : f(make(t, p)) {}
    filt(const filt&) = default;
    static fir_state<T, U> make(const L& t, int p)
    {
        univector<T> tt = mk<T>(t);
        switch (p % 4)
        {
        case 0:
            return fir_state<T, U>(fir_params<T>(tt.data(), tt.size()));
        case 1:
            return fir_state<T, U>(fir_params<T>(std::move(tt)));
        case 2:
        {
            std::vector<T> sv(tt.begin(), tt.end());
            return fir_state<T, U>(fir_params<T>(sv));
        }
        default:
            return fir_state<T, U>(fir_params<T>(tt));
        }
    }
    int nplanes() override { return planes<U>::count; }
    bool feed(int mode, const LL& in, size_t n, LL& out) override { return feed_filter<U>(f, mode, in, n, out); }
    bool reset() override
    {
        f.reset();
        return true;
    }
    bool taps(const L& t) override
    {
        univector<T> tt = mk<T>(t);
        if (t.size() % 2)
            f.set_taps(fir_params<T>(tt));
        else
            f.set_params(fir_params<T>(tt));
        return true;
    }
    std::unique_ptr<obj> clone() override { return std::make_unique<filt>(*this); }
};

// fir(expr, std::ref(state)): the state lives with the caller
template <typename T, typename U>
struct exprf : obj
{
    fir_state<T, U> st;
    exprf(const L& t) : st(fir_params<T>(mk<T>(t))) {}
    int nplanes() override { return planes<U>::count; }
    bool feed(int mode, const LL& in, size_t n, LL& out) override
    {
        return via_buffers<U>(mode & 1, in, n, out,
                              [&](U* d, const U* s, size_t c)
                              { make_univector(d, c) = fir(make_univector(s, c), std::ref(st)); }, 0);
    }
    std::unique_ptr<obj> clone() override { return std::make_unique<exprf>(*this); }
};

// an expression owning its state, evaluated piecewise through a substituted placeholder
template <typename T>
struct tofilt : obj
{
    expression_filter<T> f;
    tofilt(const L& t) : f(to_filter(fir(placeholder<T>(), fir_params<T>(mk<T>(t))))) {}
    int nplanes() override { return 1; }
    bool feed(int mode, const LL& in, size_t n, LL& out) override
    {
        return feed_filter<T>(f, mode, in, n, out);
    }
};

template <typename T, size_t N>
struct shortf : obj
{
    static constexpr size_t I = next_poweroftwo(N - 1) + 1;
    short_fir_state<I, T, T> st;
    static univector<T, N> tap(const L& t)
    {
        univector<T, N> r;
        for (size_t i = 0; i < N; ++i)
            r[i] = T(t[i]);
        return r;
    }
    shortf(const L& t) : st(tap(t)) {}
    int nplanes() override { return 1; }
    bool feed(int mode, const LL& in, size_t n, LL& out) override
    {
        return via_buffers<T>(mode & 1, in, n, out,
                              [&](T* d, const T* s, size_t c)
                              { make_univector(d, c) = short_fir<T, I>(make_univector(s, c), std::ref(st)); }, 0);
    }
    std::unique_ptr<obj> clone() override { return std::make_unique<shortf>(*this); }
};

template <typename T>
std::unique_ptr<obj> make_short(L& t)
{
    // compile-time tap counts: the script's list is cut or extended to the nearest supported length
    static const size_t sizes[] = { 2, 3, 4, 5, 6, 8, 9, 12, 16, 17, 23, 32, 33 };
    size_t n                    = 2;
    for (size_t s : sizes)
        if (s <= t.size())
            n = s;
    t.resize(n, 1);
    switch (n)
    {
    case 2: return std::make_unique<shortf<T, 2>>(t);
    case 3: return std::make_unique<shortf<T, 3>>(t);
    case 4: return std::make_unique<shortf<T, 4>>(t);
    case 5: return std::make_unique<shortf<T, 5>>(t);
    case 6: return std::make_unique<shortf<T, 6>>(t);
    case 8: return std::make_unique<shortf<T, 8>>(t);
    case 9: return std::make_unique<shortf<T, 9>>(t);
    case 12: return std::make_unique<shortf<T, 12>>(t);
    case 16: return std::make_unique<shortf<T, 16>>(t);
    case 17: return std::make_unique<shortf<T, 17>>(t);
    case 23: return std::make_unique<shortf<T, 23>>(t);
    case 32: return std::make_unique<shortf<T, 32>>(t);
    default: return std::make_unique<shortf<T, 33>>(t);
    }
}

#ifdef WITH_CONV
template <typename U>
struct convf : obj
{
    std::unique_ptr<convolve_filter<U>> f;
    static univector<U> mkc(const L& t)
    {
        univector<U> r(t.size());
        for (size_t i = 0; i < t.size(); ++i)
            r[i] = U(t[i]);
        return r;
    }
    convf(const L& t, size_t block, bool late) : f(late ? new convolve_filter<U>(t.size(), block) : new convolve_filter<U>(mkc(t), block))
    {
        if (late)
            f->set_data(mkc(t));
    }
    int nplanes() override { return planes<U>::count; }
    bool feed(int mode, const LL& in, size_t n, LL& out) override
    {
        return feed_filter<U>(*f, mode, in, n, out, 0.05);
    }
    bool reset() override
    {
        f->reset();
        return true;
    }
    bool taps(const L& t) override
    {
        f->set_data(mkc(t));
        return true;
    }
};
#endif

std::unique_ptr<obj> make(int v, L& t, int p)
{
    switch (v)
    {
#ifndef ONLY_CONV
    case 0: return std::make_unique<filt<float, float>>(t, p);
    case 1: return std::make_unique<filt<double, double>>(t, p);
    case 2: return std::make_unique<filt<float, double>>(t, p);
    case 3: return std::make_unique<filt<double, float>>(t, p);
    case 4: return std::make_unique<filt<float, complex<float>>>(t, p);
    case 5: return std::make_unique<filt<double, complex<double>>>(t, p);
    case 6: return std::make_unique<exprf<float, float>>(t);
    case 7: return std::make_unique<exprf<double, complex<double>>>(t);
    case 8: return make_short<float>(t);
    case 9: return make_short<double>(t);
    case 10: return std::make_unique<tofilt<float>>(t);
    case 11: return std::make_unique<exprf<int, int>>(t);
#endif
#ifdef WITH_CONV
    case 20: return std::make_unique<convf<float>>(t, size_t(1) << p, t.size() & 1);
    case 21: return std::make_unique<convf<double>>(t, size_t(1) << p, t.size() & 1);
    case 22: return std::make_unique<convf<complex<float>>>(t, size_t(1) << p, t.size() & 1);
    case 23: return std::make_unique<convf<complex<double>>>(t, size_t(1) << p, t.size() & 1);
#endif
    }
    std::exit(3);
}

template <typename V>
static std::string js(const V& v)
{
    std::string s = "[";
    for (size_t i = 0; i < v.size(); ++i)
        s += (i ? "," : "") + std::to_string(v[i]);
    return s + "]";
}
static std::string jss(const LL& v)
{
    std::string s = "[";
    for (size_t i = 0; i < v.size(); ++i)
        s += (i ? "," : "") + js(v[i]);
    return s + "]";
}

#ifdef WITH_CONV
template <typename U>
void oneshot(vh::in_t& in, int v)
{
    constexpr int np = planes<U>::count;
    size_t na = (size_t)in.i(), nb = (size_t)in.i();
    int k = (int)in.i();
    rs    = (unsigned long long)in.i();
    LL a(np), b(np), y(np);
    for (int q = 0; q < np; ++q)
    {
        for (size_t i = 0; i < na; ++i)
            a[q].push_back(rnd(-9, 9));
        for (size_t i = 0; i < nb; ++i)
            b[q].push_back(rnd(-9, 9));
    }
    univector<U> ua(na), ub(nb), r;
    for (size_t i = 0; i < na; ++i)
        ua[i] = planes<U>::make(a, i);
    for (size_t i = 0; i < nb; ++i)
        ub[i] = planes<U>::make(b, i);
    r = k == 0 ? convolve(ua, ub) : k == 1 ? correlate(ua, ub) : autocorrelate(ua);
    for (auto x : r)
        planes<U>::split(x, y, 0.05);
    printf("{\"ev\":\"init\",\"v\":%d,\"planes\":%d,\"taps\":[1]}\n", v, np);
    printf("{\"ev\":\"%s\",\"a\":%s,\"b\":%s,\"out\":%s}\n", k == 0 ? "conv" : k == 1 ? "corr" : "auto", jss(a).c_str(), jss(b).c_str(), jss(y).c_str());
    fflush(stdout);
}
#endif

int main()
{
    vh::in_t in;
    while (in.line())
    {
#ifdef WITH_CONV
        if (in.s.peek() == 'X')
        {
            in.word();
            switch (int v = (int)in.i())
            {
            case 20: oneshot<float>(in, v); break;
            case 21: oneshot<double>(in, v); break;
            case 22: oneshot<complex<float>>(in, v); break;
            default: oneshot<complex<double>>(in, v);
            }
            continue;
        }
#endif
        int v  = (int)in.i();
        L t    = in.list();
        rs     = (unsigned long long)in.i();
        int p  = (int)in.i();
        int n  = (int)in.i();
        std::unique_ptr<obj> o[3];
        o[1]   = make(v, t, p);
        L t2   = t;
        o[2]   = make(v, t2, p);
        int np = o[1]->nplanes();
        printf("{\"ev\":\"init\",\"v\":%d,\"planes\":%d,\"taps\":%s}\n", v, np, js(t).c_str());
        fflush(stdout);
        while (n-- > 0)
        {
            std::string k = in.word();
            if (k == "F")
            {
                int ob    = (int)in.i();
                int mode  = (int)in.i();
                size_t sz = (size_t)in.i();
                LL x(np), y;
                for (int q = 0; q < np; ++q)
                    for (size_t i = 0; i < sz; ++i)
                        x[q].push_back(rnd(-9, 9));
                bool ok = o[ob]->feed(mode, x, sz, y);
                printf("{\"ev\":\"feed\",\"o\":%d,\"mode\":%d,\"ok\":%s,\"in\":%s,\"out\":%s}\n", ob, mode,
                       ok ? "true" : "false", jss(x).c_str(), jss(y).c_str());
            }
            else if (k == "R")
            {
                int ob = (int)in.i();
                if (o[ob]->reset())
                    printf("{\"ev\":\"reset\",\"o\":%d}\n", ob);
            }
            else if (k == "T")
            {
                int ob = (int)in.i();
                L nt   = in.list();
                if (o[ob]->taps(nt))
                    printf("{\"ev\":\"taps\",\"o\":%d,\"taps\":%s}\n", ob, js(nt).c_str());
            }
            else if (k == "C")
            {
                int a = (int)in.i(), b = (int)in.i();
                auto c = o[a]->clone();
                if (c)
                {
                    o[b] = std::move(c);
                    printf("{\"ev\":\"copy\",\"a\":%d,\"b\":%d}\n", a, b);
                }
            }
            fflush(stdout);
        }
    }
    return 0;
}
