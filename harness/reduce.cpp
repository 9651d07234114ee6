// Reductions and histograms; see spec/Reduce.tla.  Script line: type nops ops...
#include <kfr/base.hpp>
#include "vh.hpp"
#include <utility>
using namespace kfr;
using vh::rec;
using list_t = std::vector<long long>;

template <typename T>
static T val(long long x)
{
    if constexpr (std::is_floating_point_v<T>)
        return (T)x;
    else
        return x == 1000001 ? std::numeric_limits<T>::max() : x == -1000001 ? std::numeric_limits<T>::min() : (T)x;
}
// histogram samples: reals in 64ths
template <typename T>
static T sample(long long x)
{
    if constexpr (std::is_floating_point_v<T>)
        return x == 1000001    ? std::numeric_limits<T>::max()
               : x == -1000001 ? std::numeric_limits<T>::lowest()
               : x == 1000003  ? std::numeric_limits<T>::infinity()
               : x == -1000003 ? -std::numeric_limits<T>::infinity()
                               : (T)x / 64;
    else
        return val<T>(x);
}
// elements in a guarded buffer at a chosen misalignment
template <typename T>
struct buf
{
    vh::guarded<T> g;
    size_t n, mis;
    buf(const list_t& v, size_t mis) : g(v.size() + mis), n(v.size()), mis(mis)
    {
        for (size_t i = 0; i < n; ++i)
            g[mis + i] = val<T>(v[i]);
    }
    T* data() { return g.data() + mis; }
    univector_ref<T> ref() { return make_univector(data(), n); }
};

template <typename T, typename E>
void reductions(rec& r, const E& e, size_t n)
{
    r.i("sum", vh::num(sum(e))).i("sumsqr", vh::num(sumsqr(e)));
    if (n == 0)
        return;
    r.i("min", vh::num(minof(e))).i("max", vh::num(maxof(e))).i("amin", vh::num(absminof(e))).i("amax", vh::num(absmaxof(e)));
    if constexpr (std::is_floating_point_v<T>)
    {
        double m = (double)rms(e);
        r.i("mean", vh::num((double)mean(e) * n, 0.01)).i("rms", vh::num(m * m * n, 0.2));
    }
    else
        r.i("mean", vh::num(mean(e)));
}

template <typename T>
void opR(vh::in_t& in)
{
    int kind = (int)in.i();
    size_t mis = (size_t)in.i();
    list_t xs = in.list(), ys = in.list();
    size_t n = xs.size();
    buf<T> x(xs, mis), y(ys, (mis + 3) % 5);
    rec r("R");
    r.b("real", std::is_floating_point_v<T>).list("xs", xs).list("ys", ys);
    auto e = x.ref();
    switch (kind)
    {
    default: reductions<T>(r, e, n); break;
    case 1: reductions<T>(r, e + y.ref() - y.ref(), n); break;
    case 2:
    {
        list_t pad(xs);
        pad.insert(pad.begin(), 3, 77);
        pad.insert(pad.end(), 9, -77);
        buf<T> p(pad, mis);
        reductions<T>(r, slice(p.ref() * scalar(T(1)), 3, n), n);
        break;
    }
    case 3:
    {
        size_t rows = n % 5 == 0 && n ? 5 : n % 3 == 0 && n ? 3 : n % 2 == 0 && n ? 2 : 1;
        tensor<T, 2> t(x.data(), shape<2>(rows, n / rows), memory_finalizer{});
        reductions<T>(r, t, n);
        break;
    }
    case 4:
    {
        auto st = [&](auto c)
        {
            univector<T, val_of(decltype(c)())> u;
            for (size_t i = 0; i < n; ++i)
                u[i] = x.data()[i];
            reductions<T>(r, u, n);
        };
        switch (n)
        {
        case 1: st(csize<1>); break;
        case 3: st(csize<3>); break;
        case 5: st(csize<5>); break;
        case 16: st(csize<16>); break;
        default: st(csize<33>); break;
        }
        break;
    }
    case 5: reductions<T>(r, reverse(e), n); break;
    case 6: reductions<T>(r, truncate(padded(e), n), n); break;
    case 7:
    {
        // every second column of a wider array
        size_t cols = n ? n : 1;
        std::vector<T> w(cols * 2, T(55));
        for (size_t i = 0; i < n; ++i)
            w[i * 2] = x.data()[i];
        tensor<T, 1> t(w.data(), shape<1>(n), shape<1>(2), memory_finalizer{});
        reductions<T>(r, t, n);
        break;
    }
    case 8:
    {
        size_t rows = n % 7 == 0 && n ? 7 : n % 2 == 0 && n ? 2 : 1;
        tensor<T, 3> t(x.data(), shape<3>(rows, 1, n / rows), memory_finalizer{});
        reductions<T>(r, t + T(0), n);
        break;
    }
    case 9: reductions<T>(r, concatenate(slice(e, 0, n / 3), slice(e, n / 3, n - n / 3)), n); break;
    case 10: reductions<T>(r, e * T(1), n); break;
    }
    if (mis % 2)
        r.i("dot", vh::num(dotproduct(e, y.ref() + T(0))));
    else
        r.i("dot", vh::num(dotproduct(y.ref(), e)));
    r.out();
}

template <typename T>
void opQ(vh::in_t& in)
{
    size_t mis = (size_t)in.i();
    list_t xs  = in.list();
    buf<T> x(xs, mis);
    rec r("Q");
    r.list("xs", xs).i("got", vh::num(product(x.ref()))).out();
}

template <typename F>
void widths(size_t n, F&& f)
{
    switch (n)
    {
#define W_(k) \
    case k: f(csize<k>); break;
        W_(1) W_(2) W_(3) W_(4) W_(5) W_(7) W_(8) W_(9) W_(12) W_(15) W_(16) W_(17) W_(31) W_(32)
#undef W_
    default: std::exit(3);
    }
}

template <typename T>
void opV(vh::in_t& in)
{
    list_t xs = in.list(), ys = in.list(), ss;
    for (auto q : xs)
        ss.push_back(q < 0 ? -1 : q > 1 ? (ss.size() < 3 ? 2 : 1) : 1);
    widths(xs.size(),
           [&](auto c)
           {
               constexpr size_t N = val_of(decltype(c)());
               vec<T, N> x, y, s;
               for (size_t i = 0; i < N; ++i)
                   x[i] = val<T>(xs[i]), y[i] = val<T>(ys[i]), s[i] = val<T>(ss[i]);
               rec r("V");
               r.b("real", std::is_floating_point_v<T>).list("xs", xs).list("ys", ys).list("ss", ss);
               r.i("add", vh::num(hadd(x))).i("dot", vh::num(hdot(x, y))).i("min", vh::num(hmin(x))).i("max", vh::num(hmax(x)));
               r.i("mul", vh::num(hmul(s)));
               if constexpr (std::is_floating_point_v<T>)
               {
                   double m = (double)hrms(x);
                   r.i("avg", vh::num((double)havg(x) * N, 0.01)).i("rms", vh::num(m * m * N, 0.2));
               }
               else
                   r.i("avg", vh::num(havg(x)));
               r.out();
           });
}

template <typename T>
void opB(vh::in_t& in)
{
    list_t xs = in.list();
    if constexpr (!std::is_floating_point_v<T>)
        widths(xs.size(),
               [&](auto c)
               {
                   constexpr size_t N = val_of(decltype(c)());
                   vec<T, N> x;
                   for (size_t i = 0; i < N; ++i)
                       x[i] = val<T>(xs[i]);
                   rec r("B");
                   r.list("xs", xs).i("band", vh::num(hbitwiseand(x))).i("bor", vh::num(hbitwiseor(x))).i("bxor", vh::num(hbitwisexor(x))).out();
               });
}

template <typename T, typename Fn, typename Tr>
void pieces(vh::in_t& in, const std::string& op, const char* tr, const list_t& xs, Fn fn, Tr tfn)
{
    buf<T> x(xs, 1);
    expression_reduce<T, 1, T, T, Fn, Tr, fn_generic::pass_through> red(std::move(fn), std::move(tfn),
                                                                        fn_generic::pass_through());
    rec("acc").str("op", op).list("xs", xs).out();
    size_t c = (size_t)in.i();
    auto e   = x.ref();
    for (size_t k = 0; k < c; ++k)
    {
        size_t st = (size_t)in.i(), n = (size_t)in.i();
        int w     = (int)in.i();
        auto go   = [&](auto cw) { return process<val_of(decltype(cw)())>(red, e, shape<1>(st), shape<1>(n)); };
        shape<1> stop;
        switch (w)
        {
        case 1: stop = go(csize<1>); break;
        case 2: stop = go(csize<2>); break;
        case 4: stop = go(csize<4>); break;
        case 8: stop = go(csize<8>); break;
        case 16: stop = go(csize<16>); break;
        default: stop = go(csize<0>); break;
        }
        T got = red.get();
        long long g = got == (T)(op == "min" || op == "absmin" ? fn::min()(initialvalue<T>{}) : fn::max()(initialvalue<T>{})) &&
                              op != "add" && op != "absmax" && !(op == "max" && std::is_unsigned_v<T>)
                          ? (op == "max" ? -2000000000LL : 2000000000LL)
                          : vh::num(got);
        rec("piece").str("op", op).str("tr", tr).i("start", (long long)st).i("n", (long long)n).i("stop", (long long)stop[0]).i("low", std::is_unsigned_v<T> ? 0 : -2000000000LL).i("got", g).out();
    }
}

template <typename T>
void opC(vh::in_t& in)
{
    std::string op = in.word();
    bool sq        = in.i() != 0;
    list_t xs      = in.list();
    auto go        = [&](auto fn)
    {
        if (sq)
            pieces<T>(in, op, "sqr", xs, fn, fn::sqr());
        else
            pieces<T>(in, op, "id", xs, fn, fn_generic::pass_through());
    };
    if (op == "add")
        go(fn::add());
    else if (op == "min")
        go(fn::min());
    else if (op == "max")
        go(fn::max());
    else if (op == "absmin")
        go(fn::absmin());
    else
        go(fn::absmax());
}

template <typename D>
void cells(rec r, const D& d)
{
    list_t c{ (long long)d.below() };
    for (size_t i = 0; i < d.size(); ++i)
        c.push_back(d[i]);
    c.push_back(d.above());
    r.list("cells", c).i("total", vh::num(d.total())).out();
}
template <typename T>
constexpr const char* kind() { return std::is_floating_point_v<T> ? "real" : "int"; }

template <typename T, typename D>
void hdata(vh::in_t& in, D& d)
{
    cells(rec("hist").i("k", (long long)d.size()), d);
    size_t c = (size_t)in.i();
    for (size_t k = 0; k < c; ++k)
    {
        std::string o = in.word();
        if (o == "s")
        {
            list_t xs{ in.i() };
            d.put(sample<T>(xs[0]));
            cells(rec("put").str("kind", kind<T>()).list("xs", xs), d);
        }
        else if (o == "n")
        {
            if constexpr (std::is_floating_point_v<T>)
                d.put(std::numeric_limits<T>::quiet_NaN());
            cells(rec("nan"), d);
        }
        else
        {
            list_t xs = in.list();
            widths(xs.size(),
                   [&](auto cn)
                   {
                       constexpr size_t N = val_of(decltype(cn)());
                       vec<T, N> v;
                       for (size_t i = 0; i < N; ++i)
                           v[i] = sample<T>(xs[i]);
                       d.put(v);
                   });
            cells(rec("put").str("kind", kind<T>()).list("xs", xs), d);
        }
    }
}
template <typename T, typename H>
void hexpr(vh::in_t& in, H& h, const list_t& xs)
{
    cells(rec("hist").i("k", (long long)h.data.size()), h.data);
    size_t c = (size_t)in.i();
    for (size_t k = 0; k < c; ++k)
    {
        size_t st = (size_t)in.i(), n = (size_t)in.i();
        int w     = (int)in.i();
        expression_discard<T, 1> dis;
        auto go = [&](auto cw) { process<val_of(decltype(cw)())>(dis, h, shape<1>(st), shape<1>(n)); };
        switch (w)
        {
        case 1: go(csize<1>); break;
        case 2: go(csize<2>); break;
        case 4: go(csize<4>); break;
        case 8: go(csize<8>); break;
        case 16: go(csize<16>); break;
        default: go(csize<0>); break;
        }
        list_t part(xs.begin() + st, xs.begin() + std::min(st + n, xs.size()));
        cells(rec("put").str("kind", kind<T>()).list("xs", part), h.data);
    }
}
template <typename T, typename F>
void with_bins(int st, size_t k, F&& f)
{
    if (st == 0)
        return f(csize<0>);
    switch (k)
    {
    case 1: f(csize<1>); break;
    case 2: f(csize<2>); break;
    case 5: f(csize<5>); break;
    default: f(csize<10>); break;
    }
}
template <typename T>
void opHist(vh::in_t& in, char op)
{
    int st   = (int)in.i();
    size_t k = (size_t)in.i();
    list_t xs;
    if (op != 'H')
        xs = in.list();
    vh::guarded<T> raw(xs.size() + 1);
    for (size_t i = 0; i < xs.size(); ++i)
        raw[i + 1] = sample<T>(xs[i]);
    auto e = make_univector(raw.data() + 1, xs.size());
    with_bins<T>(st, k,
                 [&](auto b)
                 {
                     constexpr size_t B = val_of(decltype(b)());
                     if (op == 'H')
                     {
                         histogram_data<B> d(k);
                         hdata<T>(in, d);
                     }
                     else if (op == 'X')
                     {
                         if constexpr (B == 0)
                         {
                             auto h = histogram_expression(e, k);
                             hexpr<T>(in, h, xs);
                         }
                         else
                         {
                             auto h = histogram_expression<B>(e);
                             hexpr<T>(in, h, xs);
                         }
                     }
                     else
                     {
                         auto done = [&](const auto& d)
                         {
                             rec z("hist");
                             list_t zero(d.size() + 2, 0);
                             z.i("k", (long long)d.size()).list("cells", zero).i("total", 0).out();
                             cells(rec("put").str("kind", kind<T>()).list("xs", xs), d);
                         };
                         if constexpr (B == 0)
                             done(histogram(e, k));
                         else
                             done(histogram<B>(e));
                     }
                 });
}

template <typename T>
void script(vh::in_t& in)
{
    size_t nops = (size_t)in.i();
    for (size_t k = 0; k < nops; ++k)
    {
        std::string op = in.word();
        switch (op[0])
        {
        case 'R': opR<T>(in); break;
        case 'Q': opQ<T>(in); break;
        case 'V': opV<T>(in); break;
        case 'B': opB<T>(in); break;
        case 'C': opC<T>(in); break;
        case 'H':
        case 'X':
        case 'O':
        {
            std::string h = in.word();
            if constexpr (std::is_floating_point_v<T>)
                opHist<T>(in, op[0]);
            else if (h == "u64")
                opHist<uint64_t>(in, op[0]);
            else if (h == "i8")
                opHist<int8_t>(in, op[0]);
            else if (h == "u8")
                opHist<uint8_t>(in, op[0]);
            else
                opHist<T>(in, op[0]);
            break;
        }
        default: std::exit(3);
        }
    }
}

int main()
{
    vh::in_t in;
    while (in.line())
    {
        std::string t = in.word();
        rec("init").str("v", t).out();
#ifdef PART_REAL
        if (t == "f32")
            script<float>(in);
        else
            script<double>(in);
#endif
#ifdef PART_NARROW
        if (t == "u8")
            script<uint8_t>(in);
        else if (t == "i8")
            script<int8_t>(in);
        else
            script<int16_t>(in);
#endif
#ifdef PART_WIDE
        if (t == "i32")
            script<int32_t>(in);
        else
            script<int64_t>(in);
#endif
    }
}
