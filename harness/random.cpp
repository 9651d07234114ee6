// Random generators; see spec/Random.tla.  Script line: nops ops...
#include <kfr/base.hpp>
#include "vh.hpp"
#include <functional>
#include <utility>
using namespace kfr;
using vh::rec;
using list_t = std::vector<long long>;

static random_state gens[3];

static list_t bytes(const random_state& s)
{
    unsigned char b[16];
    std::memcpy(b, &s, 16);
    return list_t(b, b + 16);
}
static void finish(rec& r)
{
    r.key("st");
    r.s += "[";
    for (int i = 0; i < 3; ++i)
    {
        list_t b = bytes(gens[i]);
        r.s += i ? ",[" : "[";
        for (int j = 0; j < 16; ++j)
            r.s += (j ? "," : "") + std::to_string(b[j]);
        r.s += "]";
    }
    r.s += "]";
    r.out();
}
static std::string num32(double v) { return std::to_string(vh::num(v * 8388608.0)); }
static std::string num64(double v)
{
    double hi = std::floor(v * 67108864.0);
    return "[" + std::to_string(vh::num((v * 67108864.0 - hi) * 67108864.0)) + "," + std::to_string(vh::num(hi)) + "]";
}
template <typename T>
std::string value(T v)
{
    if constexpr (std::is_same_v<T, float>)
        return num32(v);
    else if constexpr (std::is_same_v<T, double>)
        return num64(v);
    else
    {
        unsigned char b[sizeof(T)];
        std::memcpy(b, &v, sizeof(T));
        std::string s = "[";
        for (size_t i = 0; i < sizeof(T); ++i)
            s += (i ? "," : "") + std::to_string((int)b[i]);
        return s + "]";
    }
}
template <typename T, size_t N, typename F>
void values(rec& r, const vec<T, N>& v, F&& f)
{
    r.key("out");
    r.s += "[";
    for (size_t i = 0; i < N; ++i)
        r.s += (i ? "," : "") + f(v[i]);
    r.s += "]";
}

template <typename F>
void widths(long long n, F&& f)
{
    switch (n)
    {
#define W_(k) \
    case k: f(csize<k>); break;
        W_(1) W_(2) W_(3) W_(4) W_(5) W_(7) W_(8) W_(16) W_(17)
#undef W_
    default: std::exit(3);
    }
}
template <typename F>
void many(long long n, F&& f)
{
    switch (n)
    {
#define W_(k) \
    case k: f(csize<k>); break;
        W_(1) W_(2) W_(3) W_(5) W_(8) W_(15) W_(16) W_(17) W_(24) W_(31) W_(32) W_(33) W_(40) W_(48) W_(64)
#undef W_
    default: std::exit(3);
    }
}
template <typename F>
void reals(const std::string& t, F&& f)
{
    if (t == "f32")
        f(ctype<float>);
    else
        f(ctype<double>);
}
template <typename F>
void ints(const std::string& t, F&& f)
{
    if (t == "u8")
        f(ctype<uint8_t>);
    else if (t == "i8")
        f(ctype<int8_t>);
    else if (t == "u16")
        f(ctype<uint16_t>);
    else if (t == "i16")
        f(ctype<int16_t>);
    else if (t == "u32")
        f(ctype<uint32_t>);
    else if (t == "i32")
        f(ctype<int32_t>);
    else if (t == "u64")
        f(ctype<uint64_t>);
    else
        f(ctype<int64_t>);
}
#define TY(t) typename decltype(t)::type
#define NN(n) val_of(decltype(n)())

struct expr_t
{
    std::function<void(rec&, long long)> draw;
};

template <typename E, typename F>
expr_t mk(E e, F f)
{
    return { [e, f](rec& r, long long w)
             {
                 auto go = [&](auto cw)
                 { values(r, get_elements(e, shape<1>(3), axis_params<0, NN(cw)>()), f); };
                 switch (w)
                 {
                 case 1: go(csize<1>); break;
                 case 2: go(csize<2>); break;
                 case 4: go(csize<4>); break;
                 case 8: go(csize<8>); break;
                 default: go(csize<16>); break;
                 }
             } };
}

int main()
{
    vh::in_t in;
    while (in.line())
    {
        for (auto& g : gens)
            g = random_state();
        std::vector<expr_t> exprs;
        rec("init").out();
        size_t nops = (size_t)in.i();
        for (size_t k = 0; k < nops; ++k)
        {
            std::string op = in.word();
            rec r(op.c_str());
            long long gi = in.i();
            r.i(op == "V" ? "e" : "g", gi);
            random_state& g = gens[(gi - 1) % 3];
            if (op == "S" || op == "I")
            {
                long long kind = op == "I" ? in.i() : 0;
                unsigned char b[16];
                list_t lb;
                for (auto& x : b)
                    x = (unsigned char)in.i(), lb.push_back(x);
                u32 w[4];
                u64 d[2];
                std::memcpy(w, b, 16);
                std::memcpy(d, b, 16);
                if (op == "S")
                    g.v = portable_vec<u32, 4>{ w[0], w[1], w[2], w[3] };
                else if (kind == 4)
                    g = random_init(w[0], w[1], w[2], w[3]);
                else
                    g = random_init(d[0], d[1]);
                r.list("b", lb);
            }
            else if (op == "C")
            {
                long long h = in.i();
                gens[h - 1] = g;
                r.i("h", h);
            }
            else if (op == "B")
            {
                long long n = in.i();
                r.i("n", n);
                many(n, [&](auto cn) { values(r, random_bits<NN(cn)>(g), [](u8 x) { return std::to_string((int)x); }); });
            }
            else if (op == "U")
            {
                std::string t = in.word();
                long long n   = in.i();
                r.str("t", t).i("n", n);
                auto f = [&](auto ct)
                { widths(n, [&](auto cn) { values(r, random_uniform<TY(ct), NN(cn)>(g), [](auto x) { return value(x); }); }); };
                if (t[0] == 'f')
                    reals(t, f);
                else
                    ints(t, f);
            }
            else if (op == "G")
            {
                std::string t = in.word();
                long long lo = in.i(), hi = in.i(), n = in.i();
                r.str("t", t).i("n", n).i("lo", lo).i("hi", hi);
                reals(t,
                      [&](auto ct)
                      {
                          using T = TY(ct);
                          widths(n,
                                 [&](auto cn)
                                 {
                                     values(r, random_range<NN(cn)>(g, (T)lo / 64, (T)hi / 64),
                                            [](T x) { return std::to_string(vh::num(std::floor((double)x * 64))); });
                                 });
                      });
            }
            else if (op == "X")
            {
                std::string t = in.word();
                long long e = in.i(), neg = in.i(), n = in.i();
                r.str("t", t).i("n", n);
                reals(t,
                      [&](auto ct)
                      {
                          using T = TY(ct);
                          T range = std::ldexp(T(1), (int)e);
                          T lo    = neg ? -range : T(0);
                          widths(n,
                                 [&](auto cn)
                                 {
                                     values(r, random_range<NN(cn)>(g, lo, lo + range), [&](T x)
                                            { return value((T)(((double)x - (double)lo) / (double)range)); });
                                 });
                      });
            }
            else if (op == "R")
            {
                std::string t = in.word();
                long long lo = in.i(), rg = in.i(), n = in.i();
                r.str("t", t).i("n", n).i("r", rg);
                ints(t,
                     [&](auto ct)
                     {
                         using T = TY(ct);
                         widths(n,
                                [&](auto cn)
                                {
                                    values(r, random_range<NN(cn)>(g, (T)lo, (T)(lo + rg)),
                                           [&](T x) { return std::to_string(vh::num((long long)x - lo)); });
                                });
                     });
            }
            else if (op == "N")
            {
                std::string t = in.word();
                long long mu = in.i(), n = in.i();
                r.str("t", t).i("n", n);
                reals(t,
                      [&](auto ct)
                      {
                          using T = TY(ct);
                          widths(n,
                                 [&](auto cn)
                                 {
                                     auto v   = random_normal<NN(cn)>(g, T(mu), T(2));
                                     bool far = false;
                                     for (size_t i = 0; i < NN(cn); ++i)
                                         far = far || !(std::fabs(v[i] - T(mu)) < 100);
                                     r.b("far", far);
                                 });
                      });
            }
            else if (op == "M")
            {
                std::string kind = in.word();
                long long ref    = in.i();
                r.str("kind", kind).i("ref", ref ? gi : 0);
                auto fu = [](float x) { return num32(x); };
                auto fr = [](float x) { return num32((x + 4.0) / 8); };
                auto fi = [](int32_t x) { return std::to_string(x + 50); };
                const random_state& c = g;
                if (kind == "u")
                    exprs.push_back(ref ? mk(gen_random_uniform<float>(std::ref(g)), fu) : mk(gen_random_uniform<float>(c), fu));
                else if (kind == "r")
                    exprs.push_back(ref ? mk(gen_random_range<float>(std::ref(g), -4.f, 4.f), fr)
                                        : mk(gen_random_range<float>(c, -4.f, 4.f), fr));
                else
                    exprs.push_back(ref ? mk(gen_random_range<int32_t>(std::ref(g), -50, 50), fi)
                                        : mk(gen_random_range<int32_t>(c, -50, 50), fi));
            }
            else if (op == "V")
            {
                long long w = in.i();
                r.i("w", w);
                exprs[gi - 1].draw(r, w);
            }
            else if (op == "F")
            {
                long long h   = in.i();
                std::string t = in.word();
                long long n = in.i(), mis = in.i();
                random_state& o = gens[h - 1];
                o               = g;
                r.i("h", h);
                reals(t,
                      [&](auto ct)
                      {
                          using T = TY(ct);
                          vh::guarded<T> a(n + mis), b(n + mis);
                          auto ra = make_univector(a.data() + mis, (size_t)n), rb = make_univector(b.data() + mis, (size_t)n);
                          ra = gen_random_uniform<T>(std::ref(g));
                          rb = gen_random_uniform<T>(std::ref(o));
                          list_t la, lb;
                          for (long long i = 0; i < n; ++i)
                              la.push_back(vh::num(std::floor((double)ra[i] * 8388608))),
                                  lb.push_back(vh::num(std::floor((double)rb[i] * 8388608)));
                          r.list("a", la).list("b", lb).b("ok", a.check() && b.check());
                      });
            }
            finish(r);
        }
    }
}
