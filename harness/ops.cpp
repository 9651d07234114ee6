// Conformance harness for Ops.tla: delay lines, moving sums, short FIR, fractional delay, DC removal, generators.
// Script line: v k seed nops { F o mode n | Z o | C a b }
#include <kfr/base.hpp>
#include <kfr/dsp/biquad.hpp>
#include <kfr/dsp/biquad_design.hpp>
#include <kfr/dsp/dcremove.hpp>
#include <kfr/dsp/delay.hpp>
#include <kfr/dsp/fir.hpp>
#include <kfr/dsp/oscillators.hpp>
#include <memory>
#include "vh.hpp"
using namespace kfr;
using L = std::vector<long long>;
static unsigned long long rs;
static long long rnd(int lo, int hi)
{
    rs = rs * 6364136223846793005ull + 1442695040888963407ull;
    return lo + (long long)((rs >> 33) % (unsigned)(hi - lo + 1));
}
static std::string js(const L& v)
{
    std::string s = "[";
    for (size_t i = 0; i < v.size(); ++i)
        s += (i ? "," : "") + std::to_string(v[i]);
    return s + "]";
}
template <typename T>
T mkv(long long re) { return T(re); }
template <typename T>
long long prj(T x) { return vh::num(x); }
// complex samples carry the value in both parts with different signs; a disagreement is reported as NOT_INT
template <>
complex<float> mkv<complex<float>>(long long re) { return complex<float>(float(re), float(-re)); }
template <>
long long prj<complex<float>>(complex<float> x)
{
    return x.real() == -x.imag() ? vh::num(x.real()) : vh::NOT_INT;
}
struct obj
{
    virtual ~obj() {}
    virtual bool feed(int mode, const L& in, L& out) = 0;
    virtual std::unique_ptr<obj> clone() { return nullptr; }
};
// evaluate an expression over [at, at+n) into y (relative to at) in a given manner
template <typename T, typename E>
bool evaluate(int mode, const E& e, size_t at, size_t n, L& out, size_t tot)
{
    vh::guarded<T> buf(tot, 0xA7);
    T* d = buf.data();
    for (size_t i = 0; i < tot; ++i)
        d[i] = T(77);
    if (mode <= 1)
        process(make_univector(d, tot), e, shape<1>(at), shape<1>(n));
    else if (mode == 2)
        process(make_univector(d, tot), to_handle(e), shape<1>(at), shape<1>(n));
    else if (mode == 3)
        process<1>(make_univector(d, tot), e, shape<1>(at), shape<1>(n));
    else
    {
        begin_pass(e, shape<1>(at), shape<1>(at + n));
        size_t i = 0;
        auto w   = [&](auto N)
        {
            constexpr size_t W = decltype(N)::value;
            while (i + W <= n)
            {
                vec<T, W> v = get_elements(e, shape<1>(at + i), axis_params_v<0, W>);
                write(d + at + i, v);
                i += W;
                if (mode == 7)
                    break;
            }
        };
        if (mode == 4)
            w(csize_t<32>{});
        if (mode == 5)
            w(csize_t<3>{});
        if (mode == 6)
            w(csize_t<2>{});
        if (mode == 7)
        {
            w(csize_t<1>{});
            w(csize_t<8>{});
            w(csize_t<5>{});
            w(csize_t<16>{});
            w(csize_t<4>{});
        }
        for (; i < n; ++i)
            d[at + i] = get_elements(e, shape<1>(at + i), axis_params_v<0, 1>)[0];
        end_pass(e, shape<1>(at), shape<1>(at + n));
    }
    bool ok = buf.check();
    for (size_t i = 0; i < tot; ++i)
        ok = ok && ((i >= at && i < at + n) || d[i] == T(77));
    out.clear();
    for (size_t i = 0; i < n; ++i)
        out.push_back(prj<T>(d[at + i]));
    return ok;
}
// state kept by the user, a new input block each time
template <typename T, typename State, typename Make>
struct refobj : obj
{
    State st;
    Make make;
    refobj(const State& s, Make m) : st(s), make(m) {}
    bool feed(int mode, const L& in, L& out) override
    {
        univector<T> x(in.size());
        for (size_t i = 0; i < in.size(); ++i)
            x[i] = mkv<T>(in[i]);
        if (mode == 0)
        {
            univector<T> y = make(x, st);
            out.clear();
            for (auto v : y)
                out.push_back(prj<T>(v));
            return y.size() == x.size();
        }
        return evaluate<T>(mode, make(x, st), 0, in.size(), out, in.size());
    }
    std::unique_ptr<obj> clone() override { return std::make_unique<refobj>(*this); }
};
template <typename T, typename State, typename Make>
std::unique_ptr<obj> mkref(const State& s, Make m)
{
    return std::make_unique<refobj<T, State, Make>>(s, m);
}
constexpr size_t TOTAL = 12 * 64 + 16;
// expression holding its own state over one long signal, evaluated range by range
template <typename T, typename Make>
struct valobj : obj
{
    using E = decltype(std::declval<Make>()(std::declval<univector<T>&>()));
    std::shared_ptr<univector<T>> x;
    E e;
    size_t pos = 0;
    Make make;
    valobj(Make m) : x(std::make_shared<univector<T>>(TOTAL)), e(m(*x)), make(m) {}
    // the copy reads the same signal buffer: each block is put there just before it is evaluated
    valobj(const valobj& o) : x(o.x), e(o.e), pos(o.pos), make(o.make) {}
    bool feed(int mode, const L& in, L& out) override
    {
        for (size_t i = 0; i < in.size(); ++i)
            (*x)[pos + i] = mkv<T>(in[i]);
        bool ok = evaluate<T>(mode, e, pos, in.size(), out, TOTAL);
        pos += in.size();
        return ok;
    }
    std::unique_ptr<obj> clone() override { return std::make_unique<valobj>(*this); }
};
template <typename T, typename Make>
std::unique_ptr<obj> mkval(Make m)
{
    return std::make_unique<valobj<T, Make>>(m);
}
using factory = std::function<std::unique_ptr<obj>()>;
static std::string stages, gen = "[0,0,0]", refs = "[]";
static int unit;

static void st(const char* k, long long n) { stages += (stages.empty() ? "" : ",") + (std::string("[\"") + k + "\"," + std::to_string(n) + "]"); }
static void stf(const L& t) { stages += (stages.empty() ? "" : ",") + (std::string("[\"f\",") + js(t) + "]"); }

template <typename T, size_t N>
factory delay_n(int how)
{
    st("d", N);
    if (how == 0)
        return [] { return mkval<T>([](univector<T>& x) { return delay<N>(x); }); };
    if (how == 1)
        return [] { return mkref<T>(delay_state<T, N>(), [](univector<T>& x, delay_state<T, N>& s) { return delay(x, std::ref(s)); }); };
    if constexpr (N == 1)
        return [] { return mkref<T>(delay_state<T, 1>(), [](univector<T>& x, delay_state<T, 1>& s) { return delay(x, std::ref(s)); }); };
    else
        return [] { return mkref<T>(delay_state<T, N, tag_dynamic_vector>(), [](univector<T>& x, delay_state<T, N, tag_dynamic_vector>& s) { return delay(x, std::ref(s)); }); };
}
template <typename T>
factory delays(int how, int k)
{
    switch (k)
    {
    case 0: return delay_n<T, 1>(how);
    case 1: return delay_n<T, 2>(how);
    case 2: return delay_n<T, 3>(how);
    case 3: return delay_n<T, 4>(how);
    case 4: return delay_n<T, 7>(how);
    case 5: return delay_n<T, 8>(how);
    case 6: return delay_n<T, 17>(how);
    case 7: return delay_n<T, 33>(how);
    default: return delay_n<T, 100>(how);
    }
}
template <typename T, size_t N>
factory msum_fixed()
{
    st("s", N);
    return [] { return mkref<T>(moving_sum_state<T, N>(), [](univector<T>& x, moving_sum_state<T, N>& s) { return moving_sum(x, std::ref(s)); }); };
}
template <typename T>
factory msum(int how, int k)
{
    static const size_t len[9] = { 1, 2, 3, 4, 5, 8, 16, 31, 65 };
    size_t N                   = len[k];
    if (how == 0)
    {
        st("s", (long long)N);
        return [N] { return mkval<T>([N](univector<T>& x) { return moving_sum(x, N); }); };
    }
    if (how == 1)
    {
        st("s", (long long)N);
        return [N] { return mkref<T>(moving_sum_state<T, tag_dynamic_vector>(N), [](univector<T>& x, moving_sum_state<T, tag_dynamic_vector>& s)
                                     { return moving_sum(x, std::ref(s)); }); };
    }
    switch (k % 4)
    {
    case 0: return msum_fixed<T, 1>();
    case 1: return msum_fixed<T, 2>();
    case 2: return msum_fixed<T, 7>();
    default: return msum_fixed<T, 32>();
    }
}
template <typename T, size_t N>
factory sfir_n(int how)
{
    univector<T, N> taps;
    L t(N);
    for (size_t i = 0; i < N; ++i)
        taps[i] = T(t[i] = rnd(-3, 3));
    stf(t);
    if (how == 0)
        return [taps] { return mkval<T>([taps](univector<T>& x) { return short_fir(x, taps); }); };
    constexpr size_t I = next_poweroftwo(N - 1) + 1;
    using S            = short_fir_state<I, T, T>;
    return [taps] { return mkref<T>(S(taps), [](univector<T>& x, S& s) { return short_fir(x, std::ref(s)); }); };
}
template <typename T>
factory sfir(int how, int k)
{
    switch (k)
    {
    case 0: return sfir_n<T, 2>(how);
    case 1: return sfir_n<T, 3>(how);
    case 2: return sfir_n<T, 4>(how);
    case 3: return sfir_n<T, 5>(how);
    case 4: return sfir_n<T, 6>(how);
    case 5: return sfir_n<T, 9>(how);
    case 6: return sfir_n<T, 12>(how);
    case 7: return sfir_n<T, 17>(how);
    default: return sfir_n<T, 33>(how);
    }
}
template <typename T>
factory frac(int k)
{
    unit = 4;
    int q = k % 5; // quarters of a sample; a negative delay means none
    int w = k == 8 ? 0 : q;
    stages = "[\"h\",[" + std::to_string(4 - w) + "," + std::to_string(w) + "],4]";
    T dl = k == 8 ? T(-0.5) : T(q) / 4;
    return [dl] { return mkval<T>([dl](univector<T>& x) { return fracdelay(x, dl); }); };
}
template <typename T>
factory chain(int k)
{
    switch (k % 4)
    {
    case 0:
        st("s", 5); st("d", 3);
        return [] { return mkval<T>([](univector<T>& x) { return delay<3>(moving_sum(x, 5)); }); };
    case 1:
        st("d", 1); st("d", 2); st("s", 2);
        return [] { return mkval<T>([](univector<T>& x) { return moving_sum(delay<2>(delay<1>(x)), 2); }); };
    case 2:
        st("d", 9); stf({ 1, -2, 3 });
        return [] { return mkval<T>([](univector<T>& x) { return short_fir(delay<9>(x), univector<T, 3>{ T(1), T(-2), T(3) }); }); };
    default:
        stf({ 1, 1 }); st("s", 3); st("d", 1);
        return [] { return mkval<T>([](univector<T>& x) { return delay<1>(moving_sum(short_fir(x, univector<T, 2>{ T(1), T(1) }), 3)); }); };
    }
}
// ---- generators -------------------------------------------------------------------------------------------------
struct genobj
{
    virtual ~genobj() {}
    virtual bool feed(int mode, size_t n, L& out) = 0;
    virtual bool resync(long long) { return false; }
};
template <typename E, typename V, typename P>
struct genimpl : genobj
{
    E e;
    P project;
    std::function<void(const E&, long long)> rsf;
    genimpl(E e, P p, std::function<void(const E&, long long)> r = {}) : e(std::move(e)), project(p), rsf(r) {}
    size_t pos = 0;
    bool feed(int mode, size_t n, L& out) override
    {
        vh::guarded<V> buf(n, 0xA7);
        V* d = buf.data();
        // generators do not use the index; counters do
        if (mode <= 3)
        {
            if (expression_traits<E>::random_access)
            {
                univector<V> t(pos + n);
                process(t, e, shape<1>(pos), shape<1>(n));
                std::copy(t.begin() + pos, t.end(), d);
            }
            else if (mode == 0)
                process(make_univector(d, n), e, shape<1>(0), shape<1>(n));
            else if (mode == 1)
                process<1>(make_univector(d, n), e, shape<1>(0), shape<1>(n));
            else if (mode == 2)
                process<16>(make_univector(d, n), e, shape<1>(0), shape<1>(n));
            else
                process<4>(make_univector(d, n), e, shape<1>(0), shape<1>(n));
        }
        else
        {
            size_t i = 0;
            auto w   = [&](auto N)
            {
                constexpr size_t W = decltype(N)::value;
                if (i + W <= n)
                {
                    vec<V, W> v = get_elements(e, shape<1>(pos + i), axis_params_v<0, W>);
                    write(d + i, v);
                    i += W;
                }
            };
            while (i < n)
            {
                if (mode == 4) w(csize_t<32>{});
                if (mode == 5) w(csize_t<2>{});
                if (mode == 6) w(csize_t<4>{});
                if (mode == 7) { w(csize_t<8>{}); w(csize_t<2>{}); w(csize_t<16>{}); }
                w(csize_t<1>{});
            }
        }
        pos += n;
        out.clear();
        for (size_t i = 0; i < n; ++i)
            project(d[i], out);
        return buf.check();
    }
    bool resync(long long s) override
    {
        if (!rsf)
            return false;
        rsf(e, s);
        pos = 0;
        return true;
    }
};
template <typename E, typename P, typename R>
std::unique_ptr<genobj> mkgen(E e, P p, R r)
{
    return std::make_unique<genimpl<E, expression_value_type<E>, P>>(std::move(e), p, r);
}
template <typename E, typename P>
std::unique_ptr<genobj> mkgen(E e, P p)
{
    return std::make_unique<genimpl<E, expression_value_type<E>, P>>(std::move(e), p);
}
static void setgen(int k, long long s, long long st_) { gen = "[" + std::to_string(k) + "," + std::to_string(s) + "," + std::to_string(st_) + "]"; }
template <typename T>
std::unique_ptr<genobj> generators(int k)
{
    const T a = T(3.14159265358979323846 / 6);
    auto one  = [](auto x, L& o) { o.push_back(vh::num(x)); };
    auto mil  = [](auto x, L& o) { o.push_back(vh::num(x * 1000, 0.3)); };
    long long s = rnd(-20, 20), d = rnd(-5, 5);
    switch (k)
    {
    case 0:
        setgen(0, s, d);
        return mkgen(gen_linear(T(s), T(d)), one, [](auto& e, long long x) { e.resync(T(x)); });
    case 1:
        s = rnd(0, 3); d = 0;
        setgen(1, s, d);
        return mkgen(gen_exp2(T(s), T(d)), [](auto x, L& o) { o.push_back(vh::num(x, 1e-3)); });
    case 2:
        setgen(2, s, d);
        return mkgen(gen_sin(T(s) * a, T(d) * a), mil, [=](auto& e, long long x) { e.sync(T(x) * a); });
    case 3:
        setgen(3, s, d);
        return mkgen(gen_expj(T(s) * a, T(d) * a), [](auto x, L& o) { o.push_back(vh::num(x.real() * 1000, 0.3)); o.push_back(vh::num(x.imag() * 1000, 0.3)); },
                     [=](auto& e, long long x) { e.resync(complex<T>(T(x) * a)); });
    case 4:
        setgen(4, s, d);
        return mkgen(gen_cossin(T(s) * a, T(d) * a), mil, [=](auto& e, long long x) { e.resync(T(x) * a); });
    case 5:
        setgen(5, s, d);
        return mkgen(counter(T(s), T(d)), one);
    case 6:
        s = rnd(0, 63); d = rnd(0, 63);
        setgen(6, s, d);
        return mkgen(phasor<T>(T(d), T(64), T(s) / 64), [](auto x, L& o) { o.push_back(vh::num(x * 64)); });
    case 7:
        setgen(5, s, 1);
        return mkgen(counter(int(s)), one);
    default:
        setgen(5, s, d);
        return mkgen(counter(int(s), int(d)), one);
    }
}
template <typename T>
T q10(long long x) { return T(x) / 10; }
int main()
{
    vh::in_t in;
    while (in.line())
    {
        int v = (int)in.i(), k = (int)in.i();
        rs = (unsigned long long)in.i();
        int n = (int)in.i();
        stages.clear();
        gen  = "[0,0,0]";
        refs = "[]";
        unit = 1;
        factory f;
        std::unique_ptr<genobj> gobj;
        bool isref = false;
        switch (v)
        {
#if PART == 0
        case 0: f = delays<float>(0, k); break;
        case 1: f = delays<float>(1, k); break;
#endif
#if PART == 1
        case 2: f = delays<double>(2, k); break;
        case 3: f = delays<double>(0, k); break;
#endif
#if PART == 2
        case 4: f = delays<complex<float>>(0, k); break;
        case 5: f = delays<int>(2, k); break;
        case 6: f = msum<float>(0, k); break;
        case 7: f = msum<double>(1, k); break;
        case 8: f = msum<float>(2, k); break;
#endif
#if PART == 3
        case 9: f = sfir<float>(0, k); break;
        case 10: f = sfir<double>(1, k); break;
        case 11: f = frac<float>(k); break;
        case 12: f = frac<double>(k); break;
        case 13: f = chain<float>(k); break;
#endif
#if PART == 4
        case 14: gobj = generators<float>(k); break;
        case 15: gobj = generators<double>(k); break;
#endif
        case 16: isref = true; break;
        default: fprintf(stderr, "variant not in this part\n"); return 4;
        }
        univector<double> rx(TOTAL);
        size_t rpos = 0;
        auto dc     = dcremove(rx, 0.01 * (1 + k));
        if (isref)
        {
            // the difference equation of dcremove evaluated sample by sample over the whole signal
            biquad_section<double> b = biquad_highpass(0.01 * (1 + k), 0.5);
            double x1 = 0, x2 = 0, y1 = 0, y2 = 0;
            L r;
            for (auto& x : rx)
            {
                x        = double(rnd(-50, 50)) + 20;
                double y = b.b0 * x + b.b1 * x1 + b.b2 * x2 - b.a1 * y1 - b.a2 * y2;
                x2 = x1, x1 = x, y2 = y1, y1 = y;
                r.push_back((long long)std::nearbyint(y * 100));
            }
            refs = js(r);
        }
        printf("{\"ev\":\"init\",\"v\":%d,\"k\":%d,\"stages\":[%s],\"gen\":%s,\"ref\":%s}\n", v, k, stages.c_str(), gen.c_str(), refs.c_str());
        fflush(stdout);
        std::unique_ptr<obj> o[3];
        if (f)
            o[1] = f(), o[2] = f();
        while (n-- > 0)
        {
            std::string kd = in.word();
            if (kd == "F")
            {
                int ob = (int)in.i(), mode = (int)in.i();
                size_t sz = (size_t)in.i();
                L x, y;
                if (f)
                {
                    for (size_t i = 0; i < sz; ++i)
                        x.push_back(unit * rnd(-3, 3));
                    bool ok = o[ob]->feed(mode, x, y);
                    printf("{\"ev\":\"feed\",\"o\":%d,\"mode\":%d,\"ok\":%s,\"in\":%s,\"out\":%s}\n", ob, mode, ok ? "true" : "false",
                           js(x).c_str(), js(y).c_str());
                }
                else if (gobj)
                {
                    bool ok = gobj->feed(mode, sz, y);
                    printf("{\"ev\":\"gen\",\"mode\":%d,\"n\":%zu,\"out\":%s}\n", mode, ok ? sz : sz + 1, js(y).c_str());
                }
                else
                {
                    univector<double> t(TOTAL);
                    process(t, dc, shape<1>(rpos), shape<1>(sz));
                    for (size_t i = rpos; i < rpos + sz; ++i)
                        y.push_back(vh::num(t[i] * 100, 0.6));
                    printf("{\"ev\":\"ref\",\"at\":%zu,\"out\":%s}\n", rpos, js(y).c_str());
                    rpos += sz;
                }
            }
            else if (kd == "Z")
            {
                int ob = (int)in.i();
                if (f)
                {
                    o[ob] = f();
                    printf("{\"ev\":\"renew\",\"o\":%d}\n", ob);
                }
                else if (gobj)
                {
                    long long s = rnd(-10, 10);
                    if (gobj->resync(s))
                        printf("{\"ev\":\"resync\",\"start\":%lld}\n", s);
                }
            }
            else if (kd == "C")
            {
                int a = (int)in.i(), b = (int)in.i();
                if (f)
                {
                    auto c = o[a]->clone();
                    if (c)
                    {
                        o[b] = std::move(c);
                        printf("{\"ev\":\"copy\",\"a\":%d,\"b\":%d}\n", a, b);
                    }
                }
            }
            fflush(stdout);
        }
    }
}
