// Windows, tone detectors, mixers, shapers, units, test signals; see spec/Window.tla.  Script line: nops ops...
#include <kfr/base.hpp>
#include <kfr/dsp.hpp>
#include <cmath>
#include <complex>
#include "vh.hpp"
using namespace kfr;
using vh::rec;
static const double pi = 3.14159265358979323846;
typedef std::vector<long long> ints;

static window_type kind_of(const std::string& k)
{
    const char* names[] = { "rectangular", "triangular",      "bartlett", "cosine",  "hann",     "bartlett_hann", "hamming",      "bohman", "blackman",
                            "blackman_harris", "kaiser", "flattop",  "gaussian", "lanczos", "cosine_np",     "planck_taper", "tukey" };
    for (int i = 0; i < 17; i++)
        if (k == names[i])
            return (window_type)(i + 1);
    std::fprintf(stderr, "script: no window %s\n", k.c_str());
    std::exit(3);
}
// what is passed for a parameter of a
static double param(const std::string& k, long long a)
{
    return k == "hamming" || k == "blackman" ? a / 100.0 : k == "tukey" || k == "planck_taper" ? a / 20.0 : k == "kaiser" || k == "gaussian" ? a / 4.0 : 0.0;
}
template <typename T>
static std::vector<double> values(const univector<T>& v)
{
    return std::vector<double>(v.begin(), v.end());
}
template <typename T>
static std::vector<double> by_handle(const std::string& k, size_t n, long long a, window_symmetry s)
{
    univector<T> v(n);
    v = window<T>(n, kind_of(k), T(param(k, a)), s);
    return values(v);
}
template <typename T>
static std::vector<double> by_expression(const std::string& k, size_t n, long long a, size_t from)
{
    univector<T> v(n - from, T(-7));
    T p         = T(param(k, a));
    auto put = [&](const auto& e)
    {
        if (from)
            v = slice(e, from);
        else
            v = e;
    };
    switch ((int)kind_of(k))
    {
    case 1: put(window_rectangular<T>(n)); break;
    case 2: put(window_triangular<T>(n)); break;
    case 3: put(window_bartlett<T>(n)); break;
    case 4: put(window_cosine<T>(n)); break;
    case 5: put(window_hann<T>(n)); break;
    case 6: put(window_bartlett_hann<T>(n)); break;
    case 7: put(window_hamming<T>(n, p)); break;
    case 8: put(window_bohman<T>(n)); break;
    case 9: put(window_blackman<T>(n, p)); break;
    case 10: put(window_blackman_harris<T>(n)); break;
    case 11: put(window_kaiser<T>(n, p)); break;
    case 12: put(window_flattop<T>(n)); break;
    case 13: put(window_gaussian<T>(n, p)); break;
    case 14: put(window_lanczos<T>(n)); break;
    case 15: put(window_cosine_np<T>(n)); break;
    case 16: put(window_planck_taper<T>(n, p)); break;
    case 17: put(window_tukey<T>(n, p)); break;
    }
    return values(v);
}
// the ones whose symmetry can be asked for where their type is known
template <typename T>
static std::vector<double> by_expression_periodic(const std::string& k, size_t n, long long a)
{
    const auto per = window_symmetry::periodic;
    univector<T> v(n, T(-7));
    T p = T(param(k, a));
    switch ((int)kind_of(k))
    {
    case 3: v = window(n, cwindow_type<window_type::bartlett>, p, per, ctype<T>); break;
    case 5: v = window(n, cwindow_type<window_type::hann>, p, per, ctype<T>); break;
    case 9: v = window_blackman<T>(n, p, per); break;
    case 10: v = window_blackman_harris<T>(n, per); break;
    case 13: v = window(n, cwindow_type<window_type::gaussian>, p, per, ctype<T>); break;
    case 16: v = window_planck_taper<T>(n, p, per); break;
    case 17: v = window_tukey<T>(n, p, per); break;
    default: return by_handle<T>(k, n, a, per);
    }
    return values(v);
}
static bool close(const std::vector<double>& x, const std::vector<double>& w, size_t from, double tol)
{
    if (x.size() + from > w.size())
        return false;
    for (size_t i = 0; i < x.size(); i++)
        if (!(std::fabs(x[i] - w[i + from]) < tol))
            return false;
    return true;
}
static bool same_window(const std::string& k, size_t n, long long a, size_t from, const std::vector<double>& w)
{
    const auto sym = window_symmetry::symmetric, per = window_symmetry::periodic;
    bool same = w.size() == n && close(by_expression<double>(k, n, a, 0), w, 0, 1e-12) && close(by_handle<float>(k, n, a, sym), w, 0, 2e-5);
    same &= close(by_expression<float>(k, n, a, from), w, from, 2e-5) && close(by_expression<double>(k, n, a, from), w, from, 1e-12);
    if (n > 1)
    {
        same &= close(by_handle<double>(k, n - 1, a, per), w, 0, 1e-12) && close(by_handle<float>(k, n - 1, a, per), w, 0, 2e-5);
        same &= close(by_expression_periodic<double>(k, n - 1, a), w, 0, 1e-12) && close(by_expression_periodic<float>(k, n - 1, a), w, 0, 2e-5);
    }
    return same;
}
static void bins(vh::in_t& in)
{
    std::string k = in.word();
    size_t n      = (size_t)in.i();
    long long a   = in.i();
    size_t from   = (size_t)in.i();
    auto w        = by_handle<double>(k, n, a, window_symmetry::symmetric);
    bool sign = true, half = k == "cosine_np", square = half || k == "cosine", same = same_window(k, n, a, from, w);
    if (square)
        for (auto& x : w)
            sign &= x > -1e-9, x *= x;
    size_t m = half ? n : n == 1 ? 1 : n - 1;
    if (m < n && std::fabs(w[m] - w[0]) > 1e-9)
        sign = false; // not a period
    ints got;
    for (size_t j = 0; j < m; j++)
    {
        std::complex<double> s = 0;
        for (size_t i = 0; i < m; i++)
            s += w[i] * std::polar(1.0, -2 * pi * double(j) * (double(i) + (half ? 0.5 : 0.0)) / double(m));
        s /= double(m);
        got.push_back(std::fabs(s.imag()) > 1e-9 ? (long long)vh::NOT_INT : vh::num(s.real() * 1e8, 1));
    }
    rec("bins").str("kind", k).i("n", (long long)n).i("a", a).b("same", same).b("sign", sign).list("got", got).out();
}
static double bessel0(double x)
{
    double t = 1, s = 1;
    for (int k = 1; k < 60; k++)
        t *= x * x / 4 / k / k, s += t;
    return s;
}
template <typename F>
static double solve(F&& f, double y, double lo, double hi) // f grows
{
    for (int i = 0; i < 100; i++)
    {
        double mid = (lo + hi) / 2;
        (f(mid) < y ? lo : hi) = mid;
    }
    return (lo + hi) / 2;
}
// the sample turned into the distance it stands for
static long long position(const std::string& k, size_t n, size_t i, long long a, double w)
{
    double m = double(n - 1), p = param(k, a), y = std::fabs(2 * double(i) - m) / m;
    auto unit = [](double v) { return v > 1 && v < 1 + 1e-9 ? 1.0 : v < -1 && v > -1 - 1e-9 ? -1.0 : v; };
    if (k == "rectangular")
        return vh::num(w, 1e-12);
    if (k == "triangular")
        return vh::num(w * double(n + n % 2), 1e-9);
    if (k == "bartlett")
        return vh::num(w * m, 1e-9);
    if (k == "bartlett_hann")
        return vh::num((w - 0.38 * std::cos(pi * y)) * 100 * m, 1e-8);
    if (k == "bohman")
        return y == 1 ? vh::num(w, 1e-9) + (long long)m : vh::num(std::acos(unit((w - std::sin(pi * y) / pi) / (1 - y))) / pi * m, 1e-4);
    if (k == "gaussian")
        return vh::num(std::sqrt(-2 * std::log(std::fabs(w - 1) < 1e-15 ? 1.0 : w)) / p * double(n), 1e-4);
    if (k == "lanczos")
        return y == 0 ? vh::num((w - 1) * 1e6, 1e-3) : vh::num(std::asin(unit(w * pi * y)) / pi * m, 1e-4);
    if (k == "kaiser")
    {
        double x = solve(bessel0, w * bessel0(p), 0, p + 1) / p;
        return vh::num(x * x * m * m, 1e-3);
    }
    if (k == "tukey")
        return vh::num(std::acos(unit(1 - 2 * w)) / pi * m * double(a), 1e-3);
    if (w == 0)
        return 0;
    if (w > 1 - 1e-9)
        return w > 1 + 1e-12 ? (long long)vh::NOT_INT : w == 1 && (1 - y) / (2 * p) >= 1 ? (long long)m * 2 * a : -1;
    double x = solve([](double t) { return 1 / (1 - t) - 1 / t; }, -std::log(1 / w - 1), 1e-6, 1 - 1e-6);
    return vh::num(x * m * 2 * double(a), 1e-3);
}
static void win(vh::in_t& in)
{
    std::string k = in.word();
    size_t n      = (size_t)in.i();
    long long a   = in.i();
    size_t from   = (size_t)in.i();
    auto w        = by_handle<double>(k, n, a, window_symmetry::symmetric);
    bool same     = same_window(k, n, a, from, w);
    ints got;
    for (size_t i = 0; i < w.size(); i++)
        got.push_back(position(k, n, i, a, w[i]));
    rec("win").str("kind", k).i("n", (long long)n).i("a", a).b("same", same).list("got", got).out();
}
template <typename T, size_t N>
static void detect(const ints& k, long long u, const ints& x, const ints& blocks, ints& got)
{
    univector<T> data(x.begin(), x.end());
    complex<T> r[N], one;
    T omega[N];
    for (size_t j = 0; j < N; j++)
        omega[j] = T(2 * pi * double(k[j]) / double(u));
    {
        auto all = goertzel(r, omega);
        auto g   = goertzel(one, omega[0]);
        size_t pos = 0;
        for (auto b : blocks)
        {
            if (b)
            {
                process(all, data.slice(pos, (size_t)b));
                process(g, data.slice(pos, (size_t)b));
            }
            pos += (size_t)b;
        }
    }
    const double tol = sizeof(T) == 4 ? 0.02 : 1e-6;
    for (size_t j = 0; j < N; j++)
    {
        double sine = u == 4 ? 1.0 : std::sqrt(3.0) / 2;
        got.push_back(vh::num(2.0 * double(r[j].real()), tol));
        got.push_back(vh::num(double(r[j].imag()) / sine, tol));
    }
    if (std::fabs(double(one.real() - r[0].real())) > tol || std::fabs(double(one.imag() - r[0].imag())) > tol)
        got[0] = vh::NOT_INT;
}
static void tone(vh::in_t& in)
{
    long long u = in.i();
    ints k = in.list(), x = in.list(), blocks = in.list(), got;
    switch (k.size())
    {
    case 1: detect<double, 1>(k, u, x, blocks, got); break;
    case 2: detect<float, 2>(k, u, x, blocks, got); break;
    case 3: detect<double, 3>(k, u, x, blocks, got); break;
    default: detect<float, 4>(k, u, x, blocks, got); break;
    }
    rec r("tone");
    r.i("u", u).list("k", k).list("x", x);
    r.key("got"), r.s += "[";
    for (size_t j = 0; j < k.size(); j++)
        r.s += (j ? ",[" : "[") + std::to_string(got[2 * j]) + "," + std::to_string(got[2 * j + 1]) + "]";
    r.s += "]";
    r.out();
}
static void put(rec& r, const char* key, const std::vector<ints>& v)
{
    r.key(key), r.s += "[";
    for (size_t c = 0; c < v.size(); c++)
    {
        r.s += c ? ",[" : "[";
        for (size_t i = 0; i < v[c].size(); i++)
            r.s += (i ? "," : "") + std::to_string(v[c][i]);
        r.s += "]";
    }
    r.s += "]";
}
static ints whole(const univector<double>& v)
{
    ints r;
    for (auto x : v)
        r.push_back(vh::num(x, 1e-7));
    return r;
}
static void mix(vh::in_t& in)
{
    size_t c = (size_t)in.i(), n = (size_t)in.i();
    std::vector<ints> x(c, ints(n));
    std::vector<univector<double>> d;
    for (auto& ch : x)
    {
        for (auto& v : ch)
            v = in.i();
        d.emplace_back(univector<double>(ch.begin(), ch.end()));
    }
    ints m(4);
    for (auto& v : m)
        v = in.i();
    univector<int> d0(x[0].begin(), x[0].end());
    univector<double> out(n), l(n), r2(n);
    switch (c)
    {
    case 1: out = mixdown(d[0]); break;
    case 2: out = mixdown(d[0], d[1]); break;
    case 3: out = mixdown(d0, d[1], d[2]); break;
    default: out = mixdown(d[0], d[1], d[2], d[3]); break;
    }
    f64x2x2 matrix{ f64x2{ double(m[0]), double(m[1]) }, f64x2{ double(m[2]), double(m[3]) } };
    unpack(l, r2) = mixdown_stereo(d[0], d[c - 1], matrix);
    univector<double> sum(n), diff(n), hs(n), hd(n);
    unpack(sum, diff) = mixdown_stereo(d[0], d[c - 1], matrix_sum_diff());
    unpack(hs, hd)    = mixdown_stereo(d[0], d[c - 1], matrix_halfsum_halfdiff());
    bool halves = true;
    for (size_t i = 0; i < n; i++)
        halves &= hs[i] * 2 == sum[i] && hd[i] * 2 == diff[i];
    rec r("mix");
    r.list("m", m).b("halves", halves).list("got", whole(out));
    put(r, "sd", { whole(sum), whole(diff) });
    put(r, "x", x);
    put(r, "st", { whole(l), whole(r2) });
    r.out();
}
static void shape_(vh::in_t& in)
{
    std::string k = in.word();
    long long s   = in.i();
    ints c{ in.i(), in.i(), in.i() }, x = in.list(), sc;
    size_t n = x.size();
    univector<double> v(n), y(n);
    for (size_t i = 0; i < n; i++)
        v[i] = double(x[i]) / 4;
    if (k == "hardclip")
        y = waveshaper_hardclip(v, double(s) / 4);
    else if (k == "saturate1")
        y = waveshaper_saturate_I(v, double(s));
    else if (k == "saturate2")
        y = waveshaper_saturate_II(v, double(s));
    else if (k == "tanh")
        y = waveshaper_tanh(v, double(s));
    else
        y = waveshaper_poly(v, fbase(c[0]), fbase(c[1]), fbase(c[2]));
    ints got;
    for (size_t i = 0; i < n; i++)
    {
        double q  = std::fabs(double(s * x[i]));
        long long den = k == "saturate1" ? (long long)(4 + q) : k == "saturate2" ? (long long)((4 + q) * (4 + q) + 16) * ((s + 1) * (s + 1) - 1) : k == "poly" ? 1024 : 4;
        sc.push_back(den);
        double z = k == "tanh" ? std::atanh(y[i] * std::tanh(double(s))) / double(s) : y[i];
        got.push_back(vh::num(z * double(den), 1e-3));
    }
    rec("shape").str("kind", k).i("s", s).list("c", c).list("x", x).list("sc", sc).list("got", got).out();
}
static void units(vh::in_t& in)
{
    long long e = in.i(), o = in.i(), base = in.i();
    double x    = std::pow(10.0, double(e));
    auto near   = [](double a, double b) { return std::fabs(a - b) <= 1e-9 * std::fabs(b); };
    double hz   = 440 * std::pow(2.0, double(o));
    // tuned: the note base is 500 Hz
    double tuned = 500 * std::pow(2.0, double(o));
    bool same   = near(dB_to_amp(20.0 * double(e)), x) && near(dB_to_power(10.0 * double(e)), x) && near(note_to_hertz(69.0 + 12 * double(o)), hz);
    same &= near(intrinsics::note_to_hertz(double(base + 12 * o), double(base), 500.0), tuned);
    same &= near(amp_to_dB(-x), 20.0 * double(e)) || e == 0;
    univector<double> one(5, x), amp(5), pow(5), back(5), note(5), notes(5, 69.0 + 12 * double(o));
    amp  = amp_to_dB(one);
    pow  = power_to_dB(one);
    back = dB_to_power(pow);
    for (auto b : back)
        same &= near(b, x);
    back = dB_to_amp(amp);
    for (auto b : back)
        same &= near(b, x);
    back = note_to_hertz(notes);
    note = hertz_to_note(back);
    for (size_t i = 0; i < 5; i++)
        same &= near(back[i], hz) && near(note[i], notes[i]) && std::fabs(amp[i] - amp[0]) < 1e-9 && std::fabs(pow[i] - pow[0]) < 1e-9;
    // an offset of the decibels
    double off = double(base) / 4;
    same &= std::fabs(intrinsics::amp_to_dB(x, off) - off - 20.0 * double(e)) < 1e-9 && near(intrinsics::dB_to_amp(20.0 * double(e) + off, off), x);
    const double inf = std::numeric_limits<double>::infinity();
    same &= amp_to_dB(0.0) == -inf && dB_to_amp(-inf) == 0 && dB_to_power(-inf) == 0;
    rec("units").i("e", e).i("o", o).i("base", base).b("same", same).i("amp", vh::num(amp[2], 1e-9)).i("pow", vh::num(pow[4], 1e-9))
        .i("note", vh::num(hertz_to_note(hz), 1e-9)).i("tuned", vh::num(intrinsics::hertz_to_note(tuned, double(base), 500.0), 1e-9)).out();
}
static void signal_(vh::in_t& in)
{
    size_t n = (size_t)in.i();
    univector<double> a(n), b(n), s(n), t(n), u(n);
    a = jaehne_arg<double>(n);
    b = swept_arg<double>(n);
    s = jaehne<double>(3, n);
    t = swept<double>(3, n);
    u = truncate(unitimpulse<double>(), n);
    ints lin, cub;
    bool same = true;
    for (size_t i = 0; i < n; i++)
    {
        double d = double(n);
        lin.push_back(vh::num(a[i] * 2 / pi * d, 1e-6));
        cub.push_back(vh::num(b[i] * 4 / pi * d * d * d, 1e-3));
        same &= std::fabs(s[i] - 3 * std::sin(a[i])) < 1e-9 && std::fabs(t[i] - 3 * std::sin(b[i])) < 1e-9;
    }
    rec("signal").i("n", (long long)n).b("same", same).list("lin", lin).list("cub", cub).list("imp", whole(u)).out();
}
// one shape of the phases x: as an expression; the same from single values, vectors, radians and in float
template <typename F, typename G>
static std::vector<double> shape_of(F norm, G rad, const univector<double>& x, bool edges, bool& same)
{
    size_t n = x.size();
    univector<double> y(n), z(n), r(n);
    univector<float> xf(n), yf(n);
    for (size_t i = 0; i < n; i++)
        r[i] = x[i] * (2 * pi), xf[i] = float(x[i]);
    y  = norm(x);
    z  = rad(r);
    yf = norm(xf);
    for (size_t i = 0; i < n; i++)
    {
        vec<double, 4> v = 0.25;
        v[3]             = x[i];
        same &= std::fabs(norm(x[i]) - y[i]) < 1e-12 && std::fabs(double(norm(v)[3]) - y[i]) < 1e-12 && std::fabs(double(yf[i]) - y[i]) < 2e-5;
        // in radians an edge may fall to either side
        if (!edges)
            same &= std::fabs(z[i] - y[i]) < 1e-9 && std::fabs(rad(r[i]) - z[i]) < 1e-12;
    }
    return values(y);
}
#define SHAPE(n) [](const auto& x) { return kfr::n(x); }
static void osc(vh::in_t& in)
{
    size_t n    = (size_t)in.i();
    long long k = in.i(), step = in.i();
    univector<double> x(n), ph(n), one(n);
    bool same = true, edges = k % 2 == 0 || step % 2 != 0;
    for (size_t i = 0; i < n; i++)
        x[i] = double(k + (long long)i * step) / 32;
    // the rate and the frequency matter by their ratio only
    ph  = truncate(phasor<double>(double(step) * 3, 96, double(k) / 32), n);
    one = truncate(phasor<double>(double(step) / 32), n);
    univector<double> from(n), back(n);
    from = truncate(phasor<double>(double(step) * 5, 160), n);
    same &= values(from) == values(one);
    auto times = [](const std::vector<double>& v, double w)
    {
        ints r;
        for (double d : v)
            r.push_back(vh::num(d * w, w == 1 ? 1e-5 : 1e-9));
        return r;
    };
    rec r("osc");
    r.i("n", (long long)n).i("k", k).i("step", step).list("phase", times(values(ph), 32));
    r.list("saw", times(shape_of(SHAPE(sawtoothnorm), SHAPE(sawtooth), x, edges, same), 32)).list("isaw", times(shape_of(SHAPE(isawtoothnorm), SHAPE(isawtooth), x, edges, same), 32));
    r.list("tri", times(shape_of(SHAPE(trianglenorm), SHAPE(triangle), x, edges, same), 32)).list("sq", times(shape_of(SHAPE(squarenorm), SHAPE(square), x, edges, same), 1));
    auto sine = shape_of(SHAPE(sinenorm), SHAPE(sine), x, edges, same);
    for (size_t i = 0; i < n; i++)
        same &= std::fabs(sine[i] - std::sin(2 * pi * x[i])) < 2e-5;
    r.list("sine", times(sine, 1)).b("same", same).out();
}
int main()
{
    vh::in_t in;
    while (in.line())
    {
        rec("init").out();
        for (size_t nops = (size_t)in.i(); nops--;)
        {
            std::string op = in.word();
            if (op == "bins")
                bins(in);
            else if (op == "win")
                win(in);
            else if (op == "tone")
                tone(in);
            else if (op == "mix")
                mix(in);
            else if (op == "shape")
                shape_(in);
            else if (op == "units")
                units(in);
            else if (op == "osc")
                osc(in);
            else
                signal_(in);
        }
    }
}
