// Sample rate conversion; see spec/Src.tla.  Script line: type quality I D seed nops ops...
#include <kfr/base.hpp>
#include <kfr/dsp.hpp>
#include "vh.hpp"
using namespace kfr;
using vh::rec;

template <typename T>
constexpr int planes = is_complex<T> ? 2 : 1;
template <typename T>
static double part(const T& x, int p)
{
    if constexpr (is_complex<T>)
        return p ? x.imag() : x.real();
    else
        return x;
}
template <typename T>
static T mk(double re, double im)
{
    if constexpr (is_complex<T>)
        return T(re, im);
    else
        return T(re);
}
template <typename T, typename V>
static void put(rec& r, const char* key, V&& v, size_t n)
{
    r.key(key);
    r.s += "[";
    for (int p = 0; p < planes<T>; ++p)
    {
        r.s += p ? ",[" : "[";
        for (size_t i = 0; i < n; ++i)
            r.s += (i ? "," : "") + std::to_string(vh::num(part<T>(v[i], p)));
        r.s += "]";
    }
    r.s += "]";
}
static long long hash(long long a, long long b)
{
    unsigned long long x = (unsigned long long)a * 0x9E3779B97F4A7C15ull + (unsigned long long)b * 0xC2B2AE3D27D4EB4Full;
    x ^= x >> 29;
    x *= 0xBF58476D1CE4E5B9ull;
    x ^= x >> 32;
    return (long long)(x % 100003);
}
// outputs in guarded memory
template <typename T>
struct out_t
{
    vh::guarded<T> g;
    univector_ref<T> v;
    out_t(size_t n) : g(n), v(make_univector(g.data(), n)) {}
};
template <typename T>
static void run(vh::in_t& in)
{
    const auto q       = (sample_rate_conversion_quality)in.i();
    const long long up = in.i(), down = in.i(), seed = in.i();
    auto fresh = [&]
    {
        auto c = sample_rate_converter<T>(q, up, down);
        for (size_t j = 0; j < c.filter.size(); ++j) // integers, so that all sums are exact
            c.filter[j] = mk<T>(hash((long long)j, seed) % 19 - 9, 0);
        return c;
    };
    auto c             = fresh();
    const long long I = c.interpolation_factor, D = c.decimation_factor;
    {
        rec r("init");
        r.i("planes", planes<T>).i("up", up).i("down", down).i("i", I).i("d", D).i("depth", c.depth).i("taps", c.taps);
        r.key("r");
        r.s += "[";
        for (long long i = 0; i < D; ++i) // responses to an impulse at input i
        {
            auto k = fresh();
            size_t n = size_t((c.taps + (D - 1) * I) / D + 3);
            univector<T> x(std::max<size_t>(k.input_size_for_output(n), D), T(0)), y(n);
            x[i] = T(1);
            k.process(y, x);
            r.s += i ? ",[" : "[";
            for (size_t j = 0; j < n; ++j)
                r.s += (j ? "," : "") + std::to_string(vh::num(part<T>(y[j], 0)));
            r.s += "]";
        }
        r.s += "]";
        r.out();
    }
    std::vector<T> pend; // pushed and not consumed yet
    long long count = 0;
    auto next       = [&]
    {
        ++count;
        return mk<T>(hash(count, seed + 1) % 19 - 9, hash(count, seed + 2) % 19 - 9);
    };
    for (size_t nops = in.i(); nops--;)
    {
        std::string op = in.word();
        if (op == "P" || op == "K") // pull n outputs giving the input that is asked for, or more, or less
        {
            long long n = in.i(), extra = in.i(), need = c.input_size_for_output(n);
            long long m = std::max(0LL, need + extra);
            vh::guarded<T> x(m);
            for (long long i = 0; i < m; ++i)
                x[i] = next();
            rec r(op.c_str());
            put<T>(r, "in", x, m);
            r.i("n", n).i("need", need);
            if (op == "P")
            {
                out_t<T> y(n);
                r.i("ret", (long long)c.process(y.v, make_univector((const T*)x.data(), m)));
                put<T>(r, "out", y.g, n);
                r.b("ok", y.g.check() && x.check());
            }
            else
                r.i("ret", (long long)c.skip(n, make_univector((const T*)x.data(), m))).b("ok", x.check());
            r.out();
        }
        else if (op == "U") // push m more inputs
        {
            for (long long m = in.i(); m--;)
                pend.push_back(next());
            long long n = c.output_size_for_input(pend.size());
            if (n < 0 || n > 100000)
            {
                rec("bad").i("n", n).out();
                return;
            }
            vh::guarded<T> x(pend.size());
            std::copy(pend.begin(), pend.end(), x.data());
            out_t<T> y(n);
            rec r("U");
            put<T>(r, "in", x, pend.size());
            size_t ret = c.process(y.v, make_univector((const T*)x.data(), pend.size()));
            put<T>(r, "out", y.g, n);
            r.i("n", n).i("ret", ret).b("ok", y.g.check() && x.check()).out();
            pend.erase(pend.begin(), pend.begin() + std::min(ret, pend.size()));
        }
        else if (op == "F") // nothing but silence for many periods
        {
            long long periods = in.i() * in.i();
            size_t ret        = c.skip(periods * I, univector<T>());
            rec("F").i("off", (long long)(ret - (size_t)(periods * D))).out();
        }
        else if (op == "Q")
        {
            long long p = in.i();
            rec("Q").i("p", p).i("oi", c.output_position_to_input(p)).i("io", c.input_position_to_output(p)).i("need", c.input_size_for_output(std::abs(p))).i("room", c.output_size_for_input(std::abs(p))).out();
        }
        else if (op == "C") // the real filter: constants and ramps
        {
            const int scale = in.i();
            auto k          = sample_rate_converter<T>(q, up, down, scale);
            auto k2         = sample_rate_converter<T>(q, up, down, scale);
            size_t warm     = size_t(c.taps / D + 2), n = warm + 40;
            univector<T> x(k.input_size_for_output(n)), x2(x.size()), y(n), y2(n);
            for (size_t i = 0; i < x.size(); ++i)
                x[i] = mk<T>(1, -2), x2[i] = mk<T>(double(i) / x.size(), 0);
            k.process(y, x);
            k2.process(y2, x2);
            double dev = 0, ramp = 0;
            for (size_t i = warm; i < n; ++i)
            {
                dev  = std::max(dev, std::abs(part<T>(y[i], 0) / scale - 1));
                if (planes<T> == 2)
                    dev = std::max(dev, std::abs(part<T>(y[i], 1) / scale + 2));
                ramp = std::max(ramp, std::abs(part<T>(y2[i], 0) / scale * x.size() - (i - k.get_fractional_delay()) * D / I) * I);
            }
            rec("C").i("q", (int)q).i("dev", vh::num(std::ceil(dev * 1e6))).i("ramp", vh::num(std::ceil(ramp * 1000))).i("delay", k.get_delay()).out();
        }
    }
}
int main()
{
    vh::in_t in;
    while (in.line())
    {
        std::string t = in.word();
        if (t == "f32") run<f32>(in);
        else if (t == "f64") run<f64>(in);
        else if (t == "c32") run<complex<f32>>(in);
        else run<complex<f64>>(in);
    }
}
