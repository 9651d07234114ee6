// Filter design; see spec/Design.tla.  Script line: nops ops...
#include <kfr/base.hpp>
#include <kfr/dsp.hpp>
#include <algorithm>
#include "vh.hpp"
using namespace kfr;
using vh::rec;
typedef std::vector<std::vector<long long>> roots;

static roots read_roots(vh::in_t& in)
{
    roots r((size_t)in.i());
    for (auto& x : r)
        x = in.list();
    return r;
}
static std::string json(const roots& r)
{
    std::string s = "[";
    for (size_t i = 0; i < r.size(); i++)
    {
        s += i ? ",[" : "[";
        for (size_t k = 0; k < r[i].size(); k++)
            s += (k ? "," : "") + std::to_string(r[i][k]);
        s += "]";
    }
    return s + "]";
}
// all of them, conjugates as well, in some order
template <typename T>
static univector<complex<T>> expand(const roots& r, double unit, unsigned& seed)
{
    std::vector<complex<T>> v;
    for (auto& x : r)
    {
        v.push_back(complex<T>(T(x[0] * unit), x.size() > 1 ? T(x[1] * unit) : T(0)));
        if (x.size() > 1)
            v.push_back(complex<T>(T(x[0] * unit), T(-x[1] * unit)));
    }
    for (size_t i = v.size(); i > 1; i--)
        seed = seed * 1664525u + 1013904223u, std::swap(v[i - 1], v[(seed >> 8) % i]);
    return univector<complex<T>>(v.begin(), v.end());
}
template <typename P>
static auto section(const P& p, size_t i)
{
    return p[i];
}
template <typename T>
static void sos(vh::in_t& in)
{
    unsigned seed = (unsigned)in.i();
    long long k   = in.i();
    roots z = read_roots(in), p = read_roots(in);
    const double unit = 0.25;
    zpk<T> f;
    f.z           = expand<T>(z, unit, seed);
    f.p           = expand<T>(p, unit, seed);
    f.k           = T(k);
    auto sections = to_sos(f);
    roots out;
    for (size_t i = 0; i < sections.size(); i++)
    {
        biquad_section<T> s = sections[i];
        out.push_back({ vh::num(s.b0), vh::num(s.b1 / unit), vh::num(s.b2 / unit / unit), vh::num(s.a0), vh::num(s.a1 / unit), vh::num(s.a2 / unit / unit) });
    }
    rec r("sos");
    r.i("k", k);
    r.key("z"), r.s += json(z);
    r.key("p"), r.s += json(p);
    r.key("ss"), r.s += json(out);
    r.out();
}
typedef biquad_section<double> bq;
static double value(const bq& s, double q) { return (s.b0 + q * s.b1 + q * q * s.b2) / (s.a0 + q * s.a1 + q * q * s.a2); }
static long long whole(double x) { return vh::num(x, 1e-3 + 1e-8 * std::fabs(x)); }
static double edge(const std::vector<long long>& u) { return std::atan2(double(u[0]), double(u[1])) / 3.14159265358979323846; }
static std::vector<long long> pair(vh::in_t& in)
{
    long long a = in.i(), b = in.i();
    return { a, b };
}
static roots points(vh::in_t& in)
{
    roots at((size_t)in.i());
    for (auto& x : at)
    {
        x = pair(in);
        x.push_back(in.i());
    }
    return at;
}
static void xform(vh::in_t& in)
{
    std::string kind = in.word();
    unsigned seed    = (unsigned)in.i();
    long long k      = in.i();
    roots z = read_roots(in), p = read_roots(in);
    std::vector<long long> u = pair(in), w = pair(in);
    roots at      = points(in);
    const double fs = seed % 3 == 0 ? 2 : seed % 3 == 1 ? 48000 : 1;
    zpk<double> f;
    f.z = expand<double>(z, 1, seed);
    f.p = expand<double>(p, 1, seed);
    f.k = double(k);
    double lo = edge(u) * fs, hi = edge(w) * fs;
    zpk<double> d = kind == "lowpass" ? iir_lowpass(f, lo, fs) : kind == "highpass" ? iir_highpass(f, lo, fs) : kind == "bandpass" ? iir_bandpass(f, lo, hi, fs) : iir_bandstop(f, lo, hi, fs);
    auto s        = to_sos(d);
    bool stable   = true;
    for (size_t i = 0; i < s.size(); i++)
    {
        bq b = s[i];
        stable &= b.a0 == 1 && std::fabs(b.a2) < 1 && std::fabs(b.a1) < 1 + b.a2;
    }
    std::vector<long long> got;
    for (auto& x : at)
    {
        double h = 1;
        for (size_t i = 0; i < s.size(); i++)
            h *= value(s[i], double(x[1]) / double(x[0]));
        got.push_back(whole(h * x[2]));
    }
    rec r("xform");
    r.str("kind", kind).i("k", k).b("stable", stable).list("u", u).list("w", w).list("got", got);
    r.key("z"), r.s += json(z);
    r.key("p"), r.s += json(p);
    r.key("at"), r.s += json(at);
    r.out();
}
static void biquad(vh::in_t& in)
{
    std::string kind         = in.word();
    bool cut                 = in.i() != 0;
    std::vector<long long> q = pair(in);
    long long v              = in.i();
    std::vector<long long> u = pair(in);
    roots at                 = points(in);
    bool shelf               = kind == "lowshelf" || kind == "highshelf";
    double f                 = std::atan2(double(u[0]) * (shelf ? std::sqrt(2.0) : 1.0), double(u[1])) / 3.14159265358979323846;
    double Q                 = double(q[0]) / double(q[1]);
    double gain              = (shelf ? 40 : 20) * std::log10(double(v)) * (cut ? -1 : 1);
    bq s                     = kind == "lowpass" ? biquad_lowpass<double>(f, Q)
                               : kind == "highpass" ? biquad_highpass<double>(f, Q)
                               : kind == "bandpass" ? biquad_bandpass<double>(f, Q)
                               : kind == "notch" ? biquad_notch<double>(f, Q)
                               : kind == "allpass" ? biquad_allpass<double>(f, Q)
                               : kind == "peak" ? biquad_peak<double>(f, Q, gain)
                               : kind == "lowshelf" ? biquad_lowshelf<double>(f, gain)
                                                    : biquad_highshelf<double>(f, gain);
    std::vector<long long> got;
    for (auto& x : at)
        got.push_back(s.a0 == 1 || std::fabs(s.a0 - 1) < 1e-12 ? whole(value(s, double(x[1]) / double(x[0])) * x[2]) : vh::NOT_INT);
    rec r("biquad");
    r.str("kind", kind).b("cut", cut).list("q", q).i("v", v).list("u", u).list("got", got);
    r.key("at"), r.s += json(at);
    r.out();
}
typedef std::complex<double> cd;
static cd product_at(const univector<complex<double>>& r, cd s)
{
    cd a = 1;
    for (auto x : r)
        a *= s - cd(x);
    return a;
}
static void proto(vh::in_t& in)
{
    std::string kind = in.word();
    int n            = (int)in.i();
    long long e      = in.i();
    double db        = 10 * std::log10(1.0 + double(e));
    zpk<double> f    = kind == "butterworth" ? butterworth<double>(n) : kind == "chebyshev1" ? chebyshev1<double>(n, db) : kind == "chebyshev2" ? chebyshev2<double>(n, db) : bessel<double>(n);
    bool stable      = true;
    for (auto p : f.p)
        stable &= p.real() < 0;
    std::vector<long long> ws, sc, got;
    for (size_t c = (size_t)in.i(); c--;)
    {
        long long w = in.i(), k = in.i();
        ws.push_back(w), sc.push_back(k);
        cd s = kind == "bessel" ? cd(double(w) / std::exp((std::lgamma(2.0 * n + 1) - n * std::log(2.0) - std::lgamma(n + 1.0)) / n))
               : kind == "chebyshev2" ? std::sqrt(cd(-1.0 / double(w)))
                                      : std::sqrt(cd(-double(w)));
        cd x = kind == "bessel" ? product_at(f.p, s) / f.k * 1e6
               : kind == "chebyshev2" ? f.k * f.k * product_at(f.z, s) * product_at(f.z, -s) / product_at(f.p, s) / product_at(f.p, -s) * double(k)
                                      : product_at(f.p, s) * product_at(f.p, -s) / f.k / f.k;
        got.push_back(std::fabs(x.imag()) > 1e-3 + 1e-8 * std::fabs(x.real()) ? vh::NOT_INT : kind == "bessel" ? vh::num(std::nearbyint(x.real())) : whole(x.real()));
    }
    rec("proto").str("kind", kind).i("n", n).i("e", e).i("np", f.p.size()).i("nz", f.z.size()).b("stable", stable).list("w", ws).list("sc", sc).list("got", got).out();
}
static void design(vh::in_t& in)
{
    std::string kind = in.word(), form = in.word();
    int n       = (int)in.i();
    long long e = in.i();
    std::vector<long long> u = pair(in), w = pair(in);
    roots at        = points(in);
    const double fs = n % 3 == 0 ? 2 : n % 3 == 1 ? 44100 : 1;
    double db       = 10 * std::log10(1.0 + double(e));
    zpk<double> f   = kind == "butterworth" ? butterworth<double>(n) : kind == "chebyshev1" ? chebyshev1<double>(n, db) : chebyshev2<double>(n, db);
    double lo = edge(u) * fs, hi = edge(w) * fs;
    iir_params<double> s = to_sos(form == "lowpass" ? iir_lowpass(f, lo, fs) : form == "highpass" ? iir_highpass(f, lo, fs) : form == "bandpass" ? iir_bandpass(f, lo, hi, fs) : iir_bandstop(f, lo, hi, fs));
    bool stable = true;
    for (size_t i = 0; i < s.size(); i++)
    {
        bq b = s[i];
        stable &= b.a0 == 1 && std::fabs(b.a2) < 1 && std::fabs(b.a1) < 1 + b.a2;
    }
    std::vector<long long> got;
    for (auto& x : at)
    {
        double h = 1;
        for (size_t i = 0; i < s.size(); i++)
            h *= value(s[i], double(x[1]) / double(x[0])) * value(s[i], double(x[0]) / double(x[1]));
        got.push_back(whole(h * double(x[2])));
    }
    rec r("design");
    r.str("kind", kind).str("form", form).i("n", n).i("e", e).b("stable", stable).list("u", u).list("w", w).list("got", got);
    r.key("at"), r.s += json(at);
    r.out();
}
static expression_handle<double> window(int kind, size_t n)
{
    switch (kind)
    {
    case 0: return to_handle(window_rectangular<double>(n));
    case 1: return to_handle(window_triangular<double>(n));
    case 2: return to_handle(window_cosine<double>(n));
    case 3: return to_handle(window_hamming<double>(n));
    case 4: return to_handle(window_blackman_harris<double>(n));
    case 5: return to_handle(window_kaiser<double>(n, 3.0));
    case 6: return to_handle(window_gaussian<double>(n, 2.0));
    case 7: return to_handle(window_lanczos<double>(n));
    case 8: return to_handle(window_hann<double>(n));
    case 9: return to_handle(window_bartlett<double>(n));
    case 10: return to_handle(window_blackman<double>(n));
    default: return to_handle(window_flattop<double>(n));
    }
}
static void fir(vh::in_t& in)
{
    const double pi = 3.14159265358979323846;
    size_t n        = (size_t)in.i();
    int c = (int)in.i(), kind = (int)in.i();
    double cut = c / 24.0, up = (c + 1.3) / 24.0;
    auto w     = window(kind, n);
    univector<double> win(n);
    win = w;
    univector<double> lo(n), hi(n), lo2(n), bp(n), bs(n), nl(n);
    fir_lowpass(lo, cut, w, false);
    fir_highpass(hi, cut, w, false);
    fir_lowpass(lo2, up, w, false);
    fir_bandpass(bp, cut, up, w, false);
    fir_bandstop(bs, cut, up, w, false);
    fir_lowpass(nl, cut, w, true);
    bool same  = true;
    auto close = [](double a, double b) { return std::fabs(a - b) < 1e-12; };
    double sum = 0;
    std::vector<long long> taps;
    for (size_t i = 0; i < n; i++)
    {
        bool mid = 2 * i + 1 == n;
        same &= close(lo[i], lo[n - 1 - i]) && close(bp[i], lo2[i] - lo[i]);
        same &= close(lo[i] + hi[i], mid ? 1 : 0) && close(bp[i] + bs[i], mid ? 1 : 0);
        sum += nl[i];
        double t = double(i) - double(n - 1) / 2, x = std::fabs(win[i]) < 1e-3 ? std::sin(2 * pi * cut * t) : lo[i] / win[i] * pi * t;
        taps.push_back(mid ? vh::num(lo[i] * 12, 1e-9) : vh::num(4 * x * std::fabs(x), 1e-6));
    }
    rec("fir").i("n", n).i("c", c).b("same", same).i("sum", vh::num(sum, 1e-9)).list("taps", taps).out();
}
int main()
{
    vh::in_t in;
    while (in.line())
    {
        rec("init").out();
        for (size_t nops = (size_t)in.i(); nops--;)
        {
            std::string op = in.word();
            if (op == "sos")
                in.i() ? sos<double>(in) : sos<float>(in);
            else if (op == "xform")
                xform(in);
            else if (op == "biquad")
                biquad(in);
            else if (op == "design")
                design(in);
            else if (op == "proto")
                proto(in);
            else
                fir(in);
        }
    }
}
