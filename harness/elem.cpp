// Elementary functions of real and complex numbers; see spec/Elem.tla.  Script line: nops ops...
#include <kfr/base.hpp>
#include <kfr/math.hpp>
#include <kfr/math/interpolation.hpp>
#include <cmath>
#include <complex>
#include <limits>
#include "vh.hpp"
using namespace kfr;
using vh::rec;
typedef std::vector<long long> ints;
static const long double pil = 3.14159265358979323846264338327950288L;
static const double pi       = 3.14159265358979323846;
static bool same; // every way to get a value agreed so far

static bool close(double a, double b, double rel, double abs)
{
    return a == b || (a != a && b != b) || std::fabs(a - b) <= rel * std::max(std::fabs(a), std::fabs(b)) + abs;
}
static bool in_float(double d) { return d == 0 || (std::fabs(d) < 1e30 && std::fabs(d) > 1e-30); }
// the value of one argument: single, in vectors next to others, as an expression, and in the other precision (rel: how well)
template <typename F>
static double ev(F fn, double x, double rel = 3e-5)
{
    double d = fn(x);
    vec<double, 3> v3(0.25, x, 0.75);
    vec<double, 8> v8 = 0.5;
    v8[6]             = x;
    same &= close(fn(v3)[1], d, 1e-12, 1e-14) && close(fn(v8)[6], d, 1e-12, 1e-14) && close(fn(vec<double, 1>(x))[0], d, 1e-12, 1e-14);
    univector<double> u(11, 0.5), y;
    u[2] = u[10] = x;
    y            = fn(u);
    same &= y.size() == 11 && close(y[2], d, 1e-12, 1e-14) && close(y[10], d, 1e-12, 1e-14);
    float xf  = float(x);
    double dd = fn(double(xf));
    if (rel && in_float(xf) && in_float(dd))
    {
        float f           = fn(xf);
        vec<float, 8> w8  = 0.5f;
        w8[5]             = xf;
        univector<float> uf(11, 0.5f), yf;
        uf[9] = xf;
        yf    = fn(uf);
        same &= close(f, dd, rel, rel * 0.1) && close(fn(w8)[5], f, 1e-6, 1e-7) && close(yf[9], f, 1e-6, 1e-7);
    }
    return d;
}
template <typename F>
static double ev2(F fn, double a, double b, double rel = 3e-5)
{
    double d = fn(a, b);
    vec<double, 3> v3(0.25, a, 0.75), w3(3.0, b, 2.0);
    same &= close(fn(v3, w3)[1], d, 1e-12, 1e-14);
    univector<double> u(11, 0.5), v(11, 2.0), y;
    u[2] = u[10] = a;
    v[2] = v[10] = b;
    y            = fn(u, v);
    same &= y.size() == 11 && close(y[2], d, 1e-12, 1e-14) && close(y[10], d, 1e-12, 1e-14);
    float af = float(a), bf = float(b);
    double dd = fn(double(af), double(bf));
    if (rel && in_float(af) && in_float(bf) && in_float(dd))
        same &= close(fn(af, bf), dd, rel, rel * 0.1);
    return d;
}
typedef std::complex<double> cd;
static bool cclose(cd a, cd b, double rel)
{
    return std::abs(a - b) <= rel * (1 + std::abs(a));
}
static cd to(complex<double> z) { return cd(z.real(), z.imag()); }
static cd to(complex<float> z) { return cd(z.real(), z.imag()); }
static cd to(double z) { return cd(z, 0); }
static cd to(float z) { return cd(z, 0); }
template <typename F>
static cd cev(F fn, cd x)
{
    complex<double> z(x.real(), x.imag());
    cd d = to(fn(z));
    vec<complex<double>, 3> v3 = complex<double>(0.5, 0.25);
    v3[2]                      = z;
    same &= cclose(d, to(fn(v3)[2]), 1e-12);
    univector<complex<double>> u(7, complex<double>(0.5, 0.25));
    u[3]   = z;
    using Out = std::decay_t<decltype(fn(z))>;
    univector<Out> y(7);
    y = fn(u);
    same &= cclose(d, to(y[3]), 1e-12);
    complex<float> zf(float(x.real()), float(x.imag()));
    same &= cclose(to(fn(complex<double>(zf.real(), zf.imag()))), to(fn(zf)), 1e-4);
    return d;
}
#define FN(name) [](const auto& x) { return kfr::name(x); }
#define FN2(name) [](const auto& x, const auto& y) { return kfr::name(x, y); }

static long double angle(long long t, long long n, long long k)
{
    const int legs[3][2] = { { 4, 3 }, { 12, 5 }, { 15, 8 } };
    return (long double)n * atan2l(legs[t - 1][1], legs[t - 1][0]) + (long double)k * pil / 2;
}
static double size_(long long t, long long n)
{
    const int hyp[] = { 5, 13, 17 };
    double r        = 1;
    for (long long i = 0; i < std::llabs(n); i++)
        r *= hyp[t - 1];
    return r;
}
static void turn(vh::in_t& in)
{
    long long t = in.i(), n = in.i(), k = in.i();
    double x = double(angle(t, n, k)), deg = double(angle(t, n, k) * 180 / pil), z = size_(t, n);
    same     = true;
    auto N   = [&](double v) { return vh::num(v * z, 1e-2); };
    double s = ev(FN(sin), x), c = ev(FN(cos), x);
    vec<double, 8> d = x;
    d[0] = d[1]      = 1;
    auto sc = kfr::sincos(d), cs = kfr::cossin(d);
    vec<float, 8> df = float(x);
    auto scf = kfr::sincos(df), csf = kfr::cossin(df);
    double xf = float(x);
    same &= close(scf[2], kfr::sin(xf), 3e-5, 3e-6) && close(scf[3], kfr::cos(xf), 3e-5, 3e-6) && close(csf[6], kfr::cos(xf), 3e-5, 3e-6) && close(csf[5], kfr::sin(xf), 3e-5, 3e-6);
    if (x != 0)
        same &= std::fabs(ev(FN(sinc), x) * x - s) < 1e-12 * std::fabs(x);
    double in_turn = x - std::floor(x / (2 * pi)) * 2 * pi;
    same &= std::fabs(ev(FN(fastsin), in_turn) - s) < 2e-5 && std::fabs(ev(FN(fastcos), in_turn) - c) < 2e-5;
    same &= std::fabs(ev(FN(fastsindeg), in_turn * 180 / pi) - s) < 2e-5 && std::fabs(ev(FN(fastcosdeg), in_turn * 180 / pi) - c) < 2e-5;
    vec<double, 8> dd = deg;
    auto scd = kfr::sincosdeg(dd), csd = kfr::cossindeg(dd);
    double tz = std::nearbyint(std::cos(angle(t, n, k)) * z);
    ints tg, mult;
    if (std::fabs(tz) > z / 100)
    {
        double cond = 1 + std::fabs(s / c);
        tg.push_back(vh::num(ev(FN(tan), x, 3e-5 * cond) * tz, 1e-2));
        tg.push_back(vh::num(ev(FN(tandeg), deg, 0) * tz, 1e-2));
    }
    if (std::llabs(n) <= 2)
    {
        mult = { vh::num(kfr::cos2x(s, c) * z * z, 1e-2), vh::num(kfr::sin2x(s, c) * z * z, 1e-2), vh::num(kfr::cos3x(s, c) * z * z * z, 1e-2), vh::num(kfr::sin3x(s, c) * z * z * z, 1e-2) };
    }
    rec r("turn");
    r.i("t", t).i("n", n).i("k", k).i("s", N(s)).i("c", N(c)).list("pairs", ints{ N(sc[2]), N(sc[3]), N(cs[2]), N(cs[7]) });
    r.list("deg", ints{ N(ev(FN(sindeg), deg, 0)), N(ev(FN(cosdeg), deg, 0)), N(scd[4]), N(scd[5]), N(csd[0]), N(csd[1]) });
    r.list("tan", tg).list("mult", mult).b("same", same).out();
}
static void hyp(vh::in_t& in)
{
    long long p = in.i(), q = in.i();
    double x = double(logl((long double)p / (long double)q)), z = 2.0 * double(p) * double(q);
    same           = true;
    auto N         = [&](double v, double w) { return vh::num(v * w, 1e-6); };
    double sh      = ev(FN(sinh), x), ch = ev(FN(cosh), x), th = ev(FN(tanh), x);
    double ct      = p == q ? 0 : ev(FN(coth), x, 1e-3);
    vec<double, 4> v = x;
    auto a = kfr::sinhcosh(v), b = kfr::coshsinh(v);
    rec r("hyp");
    r.i("p", p).i("q", q).i("sh", N(sh, z)).i("ch", N(ch, z)).list("pairs", ints{ N(a[2], z), N(a[3], z), N(b[0], z), N(b[1], z) });
    r.i("th", N(th, double(p * p + q * q))).i("ct", N(ct, double(p * p - q * q))).b("same", same).out();
}
static void pow_(vh::in_t& in)
{
    long long bi = in.i(), e = in.i(), m = in.i(), a = in.i(), rt = in.i();
    double b = double(bi), be = double(powl(b, e)), lb = double(logl(b));
    same   = true;
    auto M = [&](double v) { return vh::num(v * 1e6, 1e-2); };
    ints logs{ vh::num(ev(FN(log), be) / lb, 1e-8), vh::num(ev2(FN2(logn), be, b), 1e-8) };
    ints pows{ M(ev2(FN2(pow), b, double(e), 1e-4) / be), M(ev(FN(exp), double(e) * lb, 1e-4) / be) };
    if (bi == 2)
        logs.push_back(vh::num(ev(FN(log2), be), 1e-8)), logs.push_back(vh::num(ev(FN(logb), be), 1e-8)), pows.push_back(M(ev(FN(exp2), double(e), 1e-4) / be));
    if (bi == 10)
        logs.push_back(vh::num(ev(FN(log10), be), 1e-8)), pows.push_back(M(ev(FN(exp10), double(e), 1e-4) / be));
    same &= std::fabs(ev2(FN2(logm), be, double(m)) - double(m * e) * lb) < 1e-9;
    double fl = kfr::log_fmadd(be, double(m) / lb, double(a)), fe = kfr::exp_fmadd(double(e), lb, 1.0) / be / std::exp(1.0);
    double root_r = double(powl(b, (long double)e / (long double)rt));
    // half and a third of it, where the exponent is
    double b2 = double(powl(b, e / 2)), b3 = double(powl(b, e / 3));
    ints roots{ M(ev2(FN2(root), be, double(rt), 1e-4) / root_r) }, neg;
    bool none = std::isnan(ev2(FN2(pow), -b, 0.5));
    if (e % 2 == 0)
        roots.push_back(M(ev(FN(sqrt), be) / b2));
    if (e % 3 == 0)
        roots.push_back(M(ev(FN(cbrt), be, 1e-4) / b3));
    if (rt % 2)
        neg = { M(ev2(FN2(root), -be, double(rt), 1e-4) / root_r), e % 3 ? -1000000 : M(ev(FN(cbrt), -be, 1e-4) / b3) };
    else
        none &= std::isnan(ev2(FN2(root), -be, double(rt), 0));
    rec r("pow");
    r.i("e", e).i("m", m).i("a", a).list("logs", logs).list("pows", pows).i("neg", M(ev2(FN2(pow), -b, double(e), 1e-4) / be));
    r.list("fused", ints{ vh::num(fl, 1e-8), M(fe) }).list("roots", roots).list("negroots", neg).b("norealroot", none).b("same", same).out();
}
static void inv(vh::in_t& in)
{
    long long t = in.i(), n = in.i(), k = in.i();
    double z = size_(t, n), re = std::nearbyint(double(cosl(angle(t, n, k))) * z), im = std::nearbyint(double(sinl(angle(t, n, k))) * z);
    same     = true;
    auto N   = [&](double v) { return vh::num(v * z, 1e-2); };
    double a = ev2(FN2(atan2), im, re), ad = ev2(FN2(atan2deg), im, re), s = ev(FN(asin), im / z, 1e-3), c = ev(FN(acos), re / z, 1e-3);
    bool range = std::fabs(a) < pi + 1e-9 && std::fabs(ad) < 180 + 1e-9 && std::fabs(s) < pi / 2 + 1e-9 && c > -1e-9 && c < pi + 1e-9;
    ints at, atd;
    if (re != 0)
    {
        double x = ev(FN(atan), im / re), xd = ev(FN(atandeg), im / re);
        at  = { N(std::cos(x)), N(std::sin(x)) };
        atd = { N(std::cos(xd * pi / 180)), N(std::sin(xd * pi / 180)) };
        range &= std::fabs(x) < pi / 2 + 1e-9 && std::fabs(xd) < 90 + 1e-9;
    }
    rec r("inv");
    r.i("t", t).i("n", n).i("k", k).list("at2", ints{ N(std::cos(a)), N(std::sin(a)) }).list("at2d", ints{ N(std::cos(ad * pi / 180)), N(std::sin(ad * pi / 180)) });
    r.i("as", N(std::sin(s))).i("ac", N(std::cos(c))).list("at", at).list("atd", atd).b("range", range).b("same", same).out();
}
static void cplx(vh::in_t& in)
{
    double a = double(in.i()), b = double(in.i());
    long long t = in.i(), n = in.i(), k = in.i(), p = in.i(), q = in.i(), e = in.i();
    cd z(a, b), z2(a * a - b * b, 2 * a * b + 0.0);
    same   = true;
    auto P = [](cd v, double w) { return ints{ vh::num(v.real() * w, 1e-4), vh::num(v.imag() * w, 1e-4) }; };
    double lpq = double(logl((long double)p / (long double)q)), sz = size_(t, n), d = 2.0 * double(p * q) * sz, norm = a * a + b * b;
    double th = double(angle(t, n, k)), ln2 = std::log(2.0), ln10 = std::log(10.0);
    rec r("cplx");
    r.list("z", ints{ (long long)a, (long long)b }).i("t", t).i("n", n).i("k", k).i("p", p).i("q", q);
    r.list("sqr", P(cev(FN(csqr), z), 1)).list("sqrt", P(cev(FN(csqrt), z2), 1));
    r.list("abs", ints{ vh::num(cev(FN(cabssqr), z).real(), 1e-6), vh::num(cev(FN(cabs), z2).real(), 1e-6) });
    ints arg, lg, el;
    cd back = cev([](const auto& x) { return kfr::cartesian(kfr::polar(x)); }, z2);
    if (norm != 0)
    {
        double g = cev(FN(carg), z2).real();
        cd l     = cev(FN(clog), z2);
        arg      = P(std::polar(1.0, g), norm);
        lg       = { vh::num(std::exp(l.real()), 1e-6), vh::num(std::cos(l.imag()) * norm, 1e-6), vh::num(std::sin(l.imag()) * norm, 1e-6) };
        same &= std::fabs(g) < pi + 1e-9 && std::fabs(l.imag()) < pi + 1e-9;
        same &= cclose(cev(FN(clog2), z2) * ln2, l, 1e-12) && cclose(cev(FN(clog10), z2) * ln10, l, 1e-12);
        for (const cd& v : { to(kfr::cexp(kfr::clog(complex<double>(a, b)))), to(kfr::cexp2(kfr::clog2(complex<double>(a, b)))), to(kfr::cexp10(kfr::clog10(complex<double>(a, b)))) })
            for (long long x : P(v, 1))
                el.push_back(x);
    }
    else
        back = 0;
    r.list("arg", arg).list("back", P(back, 1)).list("log", lg).list("explog", el);
    r.list("exp", P(cev(FN(cexp), cd(lpq, th)), double(q) * sz));
    r.list("exp2", P(cev(FN(cexp2), cd(double(e), th / ln2)), sz * std::pow(2.0, -double(e)))).list("exp10", P(cev(FN(cexp10), cd(double(e), th / ln10)), sz * std::pow(10.0, -double(e))));
    r.list("sin", P(cev(FN(csin), cd(th, lpq)), d)).list("cos", P(cev(FN(ccos), cd(th, lpq)), d));
    r.list("sinh", P(cev(FN(csinh), cd(lpq, th)), d)).list("cosh", P(cev(FN(ccosh), cd(lpq, th)), d));
    r.b("same", same).out();
}
template <typename T>
static T of_class(const std::string& c)
{
    typedef std::numeric_limits<T> L;
    return c == "0" ? T(0) : c == "-0" ? -T(0) : c == "1" ? T(1) : c == "-1" ? T(-1) : c == "inf" ? L::infinity() : c == "-inf" ? -L::infinity()
         : c == "nan" ? L::quiet_NaN() : c == "big" ? L::max() / 4 : c == "-big" ? -L::max() / 4 : L::min() / 16;
}
static std::string class_of(double x)
{
    auto is = [&](double v) { return std::fabs(x - v) < 1e-6; };
    return x != x ? "nan" : std::isinf(x) ? (x > 0 ? "inf" : "-inf") : x == 0 ? "0" : is(1) ? "1" : is(-1) ? "-1" : is(pi / 2) ? "quarter" : is(-pi / 2) ? "-quarter" : is(pi) ? "half" : "other";
}
static void special_(vh::in_t& in)
{
    std::string f = in.word(), x = in.word();
    std::string got[2];
    same    = true;
    auto go = [&](auto fn)
    {
        got[0] = class_of(ev(fn, of_class<double>(x), 0));
        float v = of_class<float>(x);
        got[1] = class_of(fn(v));
        vec<float, 8> w = 0.5f;
        w[3]            = v;
        same &= close(fn(w)[3], fn(v), 1e-6, 1e-7);
    };
#define S(name) else if (f == #name) go(FN(name));
    auto two = [&](auto v, auto zero, int i)
    {
        auto r = f == "pow0" ? kfr::pow(v, zero) : kfr::pow(zero, v);
        vec<decltype(v), 5> a = v, b = zero;
        auto w = f == "pow0" ? kfr::pow(a, b) : kfr::pow(b, a);
        same &= close(w[3], r, 0, 0);
        got[i] = class_of(r);
    };
    if (f == "pow0" || f == "0pow")
        two(of_class<double>(x), 0.0, 0), two(of_class<float>(x), 0.0f, 1);
    S(exp) S(exp2) S(exp10) S(log) S(log2) S(log10) S(sqrt) S(sin) S(cos) S(tan) S(sinh) S(cosh) S(tanh) S(coth) S(atan) S(asin) S(acos) S(cbrt) S(sinc)
    for (int i = 0; i < 2; i++)
        rec("special").str("f", f).str("x", x).str("got", got[i]).b("same", same).out();
}
static void dir(vh::in_t& in)
{
    std::string y = in.word(), x = in.word();
    same     = true;
    double d = ev2(FN2(atan2), of_class<double>(y), of_class<double>(x), 0);
    float f  = kfr::atan2(of_class<float>(y), of_class<float>(x));
    same &= close(d, f, 1e-6, 1e-6);
    rec("dir").str("y", y).str("x", x).i("got", vh::num(d * 4 / pi, 1e-9)).b("same", same).out();
}
static void gam(vh::in_t& in)
{
    long long n = in.i();
    same        = true;
    double g = ev(FN(gamma), double(n), 1e-3), f = ev(FN(factorial_approx), double(n - 1), 1e-3);
    rec("gamma").i("n", n).i("got", vh::num(g, 1e-2)).i("fact", vh::num(f, 1e-2)).b("same", same).out();
}
static void interp(vh::in_t& in)
{
    long long m = in.i();
    ints xi{ in.i(), in.i(), in.i(), in.i() };
    double mu = double(m) / 4, x[4];
    for (int i = 0; i < 4; i++)
        x[i] = double(xi[(size_t)i]);
    same    = true;
    auto go = [&](auto fn)
    {
        double d = fn(mu, x[0], x[1], x[2], x[3]);
        typedef vec<double, 4> V;
        V v(0.25, mu, 0.75, mu), w = fn(v, V(x[0]), V(x[1]), V(x[2]), V(x[3]));
        same &= close(w[1], d, 1e-12, 1e-12) && close(w[3], d, 1e-12, 1e-12);
        same &= close(fn(float(mu), float(x[0]), float(x[1]), float(x[2]), float(x[3])), d, 1e-5, 1e-4);
        return d;
    };
    rec r("interp");
    r.i("m", m).list("x", xi);
    r.i("nearest", vh::num(go([](auto m, auto, auto b, auto c, auto) { return kfr::nearest(m, b, c); })));
    r.i("linear", vh::num(go([](auto m, auto, auto b, auto c, auto) { return kfr::linear(m, b, c); }) * 4, 1e-6));
    r.i("cosine", vh::num(go([](auto m, auto, auto b, auto c, auto) { return kfr::cosine(m, b, c); }) * 4, 1e-3));
    r.i("cubic", vh::num(go([](auto m, auto a, auto b, auto c, auto d) { return kfr::cubic(m, a, b, c, d); }) * 64, 1e-6));
    r.i("cr", vh::num(go([](auto m, auto a, auto b, auto c, auto d) { return kfr::catmullrom(m, a, b, c, d); }) * 128, 1e-6));
    r.b("same", same).out();
}
int main()
{
    vh::in_t in;
    while (in.line())
    {
        rec("init").out();
        for (size_t nops = (size_t)in.i(); nops--;)
        {
            std::string op = in.word();
            if (op == "turn") turn(in);
            else if (op == "hyp") hyp(in);
            else if (op == "pow") pow_(in);
            else if (op == "inv") inv(in);
            else if (op == "cplx") cplx(in);
            else if (op == "special") special_(in);
            else if (op == "dir") dir(in);
            else if (op == "gamma") gam(in);
            else interp(in);
        }
    }
}
