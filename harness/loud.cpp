// Loudness metering; see spec/Loud.tla.  Script lines:
//   b|n type rate factor gate nch speakers... nops ops...      packets of exact energy / of noise
//   t type rate factor gate nch speaker freq db                a tone
#include <kfr/base.hpp>
#include <kfr/dsp/ebu.hpp>
#include <map>
#include <memory>
#include "vh.hpp"
using namespace kfr;
using vh::rec;

// The K-weighting, from the formulas of the standard's filters in double precision.
struct kweight
{
    double b[5], a[5];
    double x[5] = {}, y[5] = {};
    explicit kweight(double rate)
    {
        const double pi = 3.14159265358979323846;
        double K = std::tan(pi * 1681.81 / rate), V = std::pow(10.0, 4 / 20.0), n = 1 / (1 + std::sqrt(2.0) * K + K * K);
        double b1[3] = { (V + std::sqrt(2 * V) * K + K * K) * n, 2 * (K * K - V) * n, (V - std::sqrt(2 * V) * K + K * K) * n };
        double a1[3] = { 1, 2 * (K * K - 1) * n, (1 - std::sqrt(2.0) * K + K * K) * n };
        K            = std::tan(pi * 38.1106678246655 / rate);
        n            = 1 / (1 + 2 * K + K * K);
        double b2[3] = { 1, -2, 1 }, a2[3] = { 1, 2 * (K * K - 1) * n, (1 - 2 * K + K * K) * n };
        for (int i = 0; i < 5; i++)
        {
            b[i] = a[i] = 0;
            for (int j = 0; j < 3; j++)
                if (i - j >= 0 && i - j < 3)
                    b[i] += b1[j] * b2[i - j], a[i] += a1[j] * a2[i - j];
        }
    }
    double next(double v)
    {
        for (int i = 4; i > 0; i--)
            x[i] = x[i - 1], y[i] = y[i - 1];
        x[0] = v;
        y[0] = b[0] * v;
        for (int i = 1; i < 5; i++)
            y[0] += b[i] * x[i] - a[i] * y[i];
        return y[0];
    }
};

static long long milli(double x) { return x != x ? vh::IS_NAN : x < -200 ? -200000 : vh::num(std::nearbyint(x * 1000)); }

template <typename T>
struct runner
{
    vh::in_t& in;
    int rate, factor, gate;
    std::vector<Speaker> sp;
    std::unique_ptr<ebu_r128<T>> meter;
    size_t size;
    double level; // mean square of level 1
    explicit runner(vh::in_t& in) : in(in) {}

    void begin(bool exact)
    {
        rate = in.i(), factor = in.i(), gate = in.i();
        std::vector<long long> s = in.list();
        for (long long x : s)
            sp.push_back((Speaker)x);
        meter.reset(new ebu_r128<T>(rate, sp, factor));
        size  = meter->packet_size();
        level = std::pow(10.0, (-70 + 0.691) / 10) / (gate / 100.0);
        rec("init").i("rate", rate).i("factor", factor).i("gate", gate).b("exact", exact).list("sp", s).i("size", size).i("count", meter->count()).i("shown", meter->sample_rate()).out();
    }
    // a loudness as energy in seventeenths of a level times the packets of the window
    long long back(T v, int n)
    {
        if (v != v)
            return vh::IS_NAN;
        return vh::num(std::nearbyint(std::pow(10.0, ((double)v + 0.691) / 10) / level * 17 * n));
    }
    void read()
    {
        T m, s, i, lo, hi;
        meter->get_values(m, s, i, lo, hi);
        rec("read").i("m", back(m, 4 * factor)).i("s", back(s, 30 * factor)).i("i", back(i, 4 * factor)).i("low", back(lo, 30 * factor)).i("high", back(hi, 30 * factor)).out();
    }
    void feed(std::vector<univector<T>>& p, int how)
    {
        if (how == 1)
        {
            std::vector<univector_ref<T>> v;
            for (auto& x : p)
                v.push_back(x.slice());
            meter->process_packet(v);
        }
        else if (how == 2 && p.size() == 1)
            meter->process_packet({ p[0].slice() });
        else if (how == 2 && p.size() == 2)
            meter->process_packet({ p[0].slice(), p[1].slice() });
        else
            meter->process_packet(p);
    }
    void packets(bool noise)
    {
        begin(!noise);
        std::vector<kweight> filters(sp.size(), kweight(rate));
        uint32_t seed = 12345;
        long long nops = in.i();
        for (long long k = 0; k < nops; k++)
        {
            std::string op = in.word();
            if (op == "p")
            {
                int count = in.i(), every = in.i(), how = in.i();
                std::vector<long long> e;
                for (size_t c = 0; c < sp.size(); c++)
                    e.push_back(in.i());
                for (int j = 0; j < count; j++)
                {
                    std::vector<univector<T>> p;
                    std::vector<long long> w = e;
                    for (size_t c = 0; c < sp.size(); c++)
                    {
                        univector<T> x(size, T(0));
                        double g  = std::sqrt(e[c] * level * size), bb = 0;
                        kweight& f = filters[c];
                        if (noise)
                        {
                            double sum = 0;
                            for (size_t i = 0; i < size; i++)
                            {
                                seed = seed * 1664525u + 1013904223u;
                                x[i] = T(((int32_t)seed / 2147483648.0) * std::sqrt(e[c] * level));
                                double y = f.next(x[i]);
                                sum += y * y;
                            }
                            w[c] = (long long)std::nearbyint(sum / size / level);
                        }
                        else
                        {
                            // what the filter turns into its numerator, and then silence
                            for (int i = 0; i < 5; i++)
                                bb += f.b[i] * f.b[i];
                            size_t at = (size_t)((k * 7 + j * 13 + c) % (size - 12));
                            for (int i = 0; i < 5; i++)
                                x[at + i] = T(f.a[i] * g / std::sqrt(bb));
                        }
                        p.push_back(x);
                    }
                    feed(p, how);
                    rec("packet").list("e", w).out();
                    if (every && j % every == every - 1)
                        read();
                }
            }
            else if (op == "read")
                read();
            else
            {
                op == "reset" ? meter->reset() : op == "start" ? meter->start() : meter->stop();
                rec(op.c_str()).out();
            }
        }
    }
    void tone()
    {
        begin(true);
        int f = in.i(), db = in.i();
        double a = std::pow(10.0, db / 20.0);
        std::vector<univector<T>> p(1, univector<T>(size));
        size_t t = 0;
        for (int k = 0; k < 60 * factor; k++)
        {
            for (size_t i = 0; i < size; i++, t++)
                p[0][i] = T(a * std::sin(2 * 3.14159265358979323846 * std::fmod((double)f * t / rate, 1.0)));
            feed(p, k % 3);
        }
        T m, s, i, lo, hi;
        meter->get_values(m, s, i, lo, hi);
        rec("tone").i("sp", (int)sp[0]).i("f", f).i("db", db).i("m", milli(m)).i("s", milli(s)).i("i", milli(i)).out();
    }
    void run(char k) { k == 't' ? tone() : packets(k == 'n'); }
};

int main()
{
    vh::in_t in;
    while (in.line())
    {
        std::string k = in.word(), t = in.word();
        t == "f32" ? runner<float>(in).run(k[0]) : runner<double>(in).run(k[0]);
    }
}
