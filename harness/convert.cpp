// Sample conversion and interleaving; see spec/Convert.tla.  Script line: nops ops...
#include <kfr/base.hpp>
#include "vh.hpp"
using namespace kfr;
using vh::rec;
using big = __int128;

static std::string limbs(big x)
{
    std::string s = x < 0 ? "[-1" : "[1";
    if (x < 0)
        x = -x;
    for (; x; x /= 10000)
        s += "," + std::to_string((int)(x % 10000));
    return s + "]";
}
template <typename T>
static big value(T x)
{
    if constexpr (std::is_floating_point_v<T>)
    {
        double d = (double)x * 1073741824.0;
        if (d != d)
            return (big)1 << 80;
        return (big)std::nearbyint(std::max(-1e15, std::min(1e15, d)));
    }
    else if constexpr (std::is_same_v<T, i24>)
        return x.as_int();
    else
        return x;
}
template <typename T>
static T make(int base, long long r)
{
    if constexpr (std::is_floating_point_v<T>)
    {
        const T e = T(1) / 16777216;
        return base == 0 ? T(r) / 65536 : base == 1 ? 1 - T(r) * e : base == 2 ? -1 + T(r) * e : base == 3 ? T(r) / 1024 : r == 1000000 ? std::numeric_limits<T>::infinity() : r == -1000000 ? -std::numeric_limits<T>::infinity() : T(r);
    }
    else
    {
        big mx = std::is_same_v<T, i24> ? (big)8388607 : ((big)1 << (8 * sizeof(T) - 1)) - 1, mn = -mx - 1;
        big v = base == 0 ? (big)r : base == 1 ? mx - r : base == 2 ? mn + r : base == 3 ? mx * r / 1024 : r > 0 ? mx : mn;
        v     = std::max(mn, std::min(mx, v));
        if constexpr (std::is_same_v<T, i24>)
            return i24((int)v);
        else
            return (T)v;
    }
}
template <typename F>
static void seq(rec& r, const char* k, size_t n, F f)
{
    r.key(k);
    r.s += "[";
    for (size_t i = 0; i < n; ++i)
        r.s += (i ? "," : "") + limbs(f(i));
    r.s += "]";
}
template <typename F>
static void seq2(rec& r, const char* k, size_t m, size_t n, F f)
{
    r.key(k);
    r.s += "[";
    for (size_t c = 0; c < m; ++c)
    {
        r.s += c ? ",[" : "[";
        for (size_t i = 0; i < n; ++i)
            r.s += (i ? "," : "") + limbs(f(c, i));
        r.s += "]";
    }
    r.s += "]";
}
template <typename T>
struct buf
{
    vh::guarded<T> g;
    size_t mis;
    buf(size_t n, size_t mis) : g(n + mis), mis(mis)
    {
        for (size_t i = 0; i < mis; ++i)
            g[i] = T(77);
    }
    T* data() { return g.data() + mis; }
    T& operator[](size_t i) { return g[mis + i]; }
    bool check()
    {
        for (size_t i = 0; i < mis; ++i)
            if (value(g[i]) != value(T(77)))
                return false;
        return g.check();
    }
};
template <typename A, typename B>
static void conv(B* o, const A* x, size_t n, int api)
{
    if (api == 0)
        for (size_t i = 0; i < n; ++i)
            o[i] = convert_sample<B>(x[i]);
    else if (api == 1)
        convert(o, x, n);
    else if (api == 2)
        convert(o, (const void*)x, audio_sample_traits<A>::type, n);
    else
        convert((void*)o, audio_sample_traits<B>::type, x, n);
}

template <typename A, typename B>
static void op(vh::in_t& in, const std::string& o, const std::string& ti, const std::string& to)
{
    int api    = in.i();
    size_t mis = in.i();
    if (o == "C")
    {
        size_t n = in.i();
        buf<A> x(n, mis), back(n, mis);
        buf<B> y(n, mis);
        for (size_t i = 0; i < n; ++i)
        {
            int b = in.i();
            x[i]  = make<A>(b, in.i());
        }
        conv(y.data(), x.data(), n, api);
        conv(back.data(), y.data(), n, api);
        rec r("C");
        r.str("ti", ti).str("to", to).b("ok", x.check() && y.check() && back.check());
        seq(r, "in", n, [&](size_t i) { return value(x[i]); });
        seq(r, "out", n, [&](size_t i) { return value(y[i]); });
        seq(r, "back", n, [&](size_t i) { return value(back[i]); });
        r.out();
        return;
    }
    size_t ch = in.i(), n = in.i(), s = in.i();
    auto val = [&](size_t k) { return make<A>(3, (long long)((k + s) * 37 % 2039) - 1019); };
    bool arrays = api > 0 && !std::is_same_v<A, i24> && !std::is_same_v<B, i24>;
    bool ok     = true;
    rec r(o.c_str());
    r.str("ti", ti).str("to", to).i("ch", ch).i("n", n);
    if (o == "I")
    {
        std::vector<buf<A>> x;
        std::vector<const A*> px;
        for (size_t c = 0; c < ch; ++c)
        {
            x.emplace_back(n, (mis + c) % 4);
            for (size_t i = 0; i < n; ++i)
                x[c][i] = val(c * n + i);
        }
        for (auto& b : x)
            px.push_back(b.data());
        buf<B> y(ch * n, mis);
        if (!arrays)
            interleave(y.data(), px.data(), ch, n);
        if constexpr (!std::is_same_v<A, i24> && !std::is_same_v<B, i24>)
            if (arrays)
            {
                univector2d<A> xs;
                for (size_t c = 0; c < ch; ++c) // channels may be longer than what is taken from them
                {
                    xs.emplace_back(px[c], px[c] + n);
                    if (api == 1)
                        xs.back().resize(n + s % 3, A(77));
                }
                univector_ref<B> ry = make_univector(y.data(), ch * n);
                bool done           = false;
                if constexpr (std::is_same_v<A, B>)
                    if (api == 2)
                    {
                        auto v = interleave(xs);
                        ok     = v.size() == ch * n;
                        std::copy_n(v.begin(), ok ? ch * n : 0, y.data());
                        done = true;
                    }
                if (!done)
                    interleave(ry, xs);
            }
        for (auto& b : x)
            ok = ok && b.check();
        r.b("ok", ok && y.check());
        seq2(r, "in", ch, n, [&](size_t c, size_t i) { return value(x[c][i]); });
        seq(r, "out", ch * n, [&](size_t i) { return value(y[i]); });
    }
    else
    {
        buf<A> x(ch * n, mis);
        for (size_t i = 0; i < ch * n; ++i)
            x[i] = val(i);
        std::vector<buf<B>> y;
        std::vector<B*> py;
        for (size_t c = 0; c < ch; ++c)
            y.emplace_back(n, (mis + c) % 4);
        for (auto& b : y)
            py.push_back(b.data());
        if (!arrays)
            deinterleave(py.data(), x.data(), ch, n);
        if constexpr (!std::is_same_v<A, i24> && !std::is_same_v<B, i24>)
            if (arrays)
            {
                // room for more frames than there are, an incomplete last frame
                univector2d<B> ys(ch, univector<B>(n + s % 3, B(77)));
                univector<A> rx(x.data(), x.data() + ch * n);
                rx.resize(ch * n + s % ch, A(55));
                deinterleave(ys, rx);
                for (size_t c = 0; c < ch; ++c)
                {
                    ok = ok && ys[c].size() == n + s % 3;
                    for (size_t i = n; i < ys[c].size(); ++i)
                        ok = ok && ys[c][i] == B(77);
                    std::copy_n(ys[c].begin(), n, py[c]);
                }
            }
        for (auto& b : y)
            ok = ok && b.check();
        r.b("ok", ok && x.check());
        seq(r, "in", ch * n, [&](size_t i) { return value(x[i]); });
        seq2(r, "out", ch, n, [&](size_t c, size_t i) { return value(y[c][i]); });
    }
    r.out();
}
template <typename F>
static void with(const std::string& t, F f)
{
    if (t == "i8") f(i8(0));
    else if (t == "i16") f(i16(0));
    else if (t == "i24") f(i24(0));
    else if (t == "i32") f(i32(0));
    else if (t == "i64") f(i64(0));
    else if (t == "f32") f(f32(0));
    else f(f64(0));
}
int main()
{
    vh::in_t in;
    while (in.line())
    {
        rec("init").out();
        for (size_t nops = in.i(); nops--;)
        {
            std::string o = in.word(), ti = in.word(), to = in.word();
            with(ti, [&](auto a) { with(to, [&](auto b) { op<decltype(a), decltype(b)>(in, o, ti, to); }); });
        }
    }
}
