// Shared by the conformance harnesses: script tokens in, ndjson trace records out.
#pragma once
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <sstream>
#include <string>
#include <type_traits>
#include <vector>

namespace vh
{
// Values outside the exact integers the models use are recorded as one of these, so that a trace never wraps
// inside TLC (whose integers have 32 bits).
constexpr long long NOT_INT = 2000000001LL, IS_NAN = 2000000002LL, TOO_BIG = 2000000003LL;

inline long long num(double x, double tol = 0)
{
    if (x != x)
        return IS_NAN;
    if (!(std::fabs(x) < 1.0e9))
        return TOO_BIG;
    double r = std::nearbyint(x);
    if (std::fabs(r - x) > tol)
        return NOT_INT;
    return (long long)r;
}
inline long long num(float x, double tol = 0) { return num((double)x, tol); }
template <typename I, typename = std::enable_if_t<std::is_integral_v<I>>>
inline long long num(I x, double = 0)
{
    long long v = (long long)x;
    if (std::is_unsigned_v<I> && (unsigned long long)x > 1000000000ull)
        return TOO_BIG;
    if (v > 1000000000LL || v < -1000000000LL)
        return TOO_BIG;
    return v;
}

// ---- script input ----
struct in_t
{
    std::istringstream s;
    bool line()
    {
        std::string l;
        while (std::getline(std::cin, l))
        {
            if (l.empty())
                continue;
            s.clear();
            s.str(l);
            return true;
        }
        return false;
    }
    bool more()
    {
        s >> std::ws;
        return !s.eof() && s.good();
    }
    std::string word()
    {
        std::string w;
        if (!(s >> w))
        {
            std::fprintf(stderr, "script: missing word\n");
            std::exit(3);
        }
        return w;
    }
    long long i()
    {
        long long v;
        if (!(s >> v))
        {
            std::fprintf(stderr, "script: missing number\n");
            std::exit(3);
        }
        return v;
    }
    std::vector<long long> list()
    {
        size_t n = (size_t)i();
        std::vector<long long> v(n);
        for (auto& x : v)
            x = i();
        return v;
    }
};

// ---- trace output ----
struct rec
{
    std::string s = "{";
    bool first    = true;
    rec(const char* ev) { str("ev", ev); }
    void key(const char* k)
    {
        if (!first)
            s += ",";
        first = false;
        s += "\"";
        s += k;
        s += "\":";
    }
    rec& str(const char* k, const std::string& v)
    {
        key(k);
        s += "\"" + v + "\"";
        return *this;
    }
    rec& i(const char* k, long long v)
    {
        key(k);
        s += std::to_string(v);
        return *this;
    }
    rec& b(const char* k, bool v)
    {
        key(k);
        s += v ? "true" : "false";
        return *this;
    }
    template <typename V>
    rec& list(const char* k, const V& v)
    {
        key(k);
        s += "[";
        bool f = true;
        for (auto x : v)
        {
            if (!f)
                s += ",";
            f = false;
            s += std::to_string((long long)x);
        }
        s += "]";
        return *this;
    }
    template <typename T>
    rec& nums(const char* k, const T* p, size_t n, double tol = 0)
    {
        key(k);
        s += "[";
        for (size_t j = 0; j < n; ++j)
        {
            if (j)
                s += ",";
            s += std::to_string(num(p[j], tol));
        }
        s += "]";
        return *this;
    }
    void out()
    {
        s += "}\n";
        std::fwrite(s.data(), 1, s.size(), stdout);
        std::fflush(stdout);
    }
};

// A buffer with guard zones on both sides; check() tells whether anything outside was touched.
template <typename T>
struct guarded
{
    static constexpr size_t G = 96;
    std::vector<unsigned char> raw;
    size_t n;
    guarded(size_t n, unsigned char fill = 0x5A) : raw((n + 2 * G) * sizeof(T) + 64, fill), n(n), fill(fill)
    {
        size_t a = (size_t)raw.data() % 64;
        off      = a ? 64 - a : 0;
    }
    size_t off;
    unsigned char fill;
    T* data() { return (T*)(raw.data() + off) + G; }
    T& operator[](size_t i) { return data()[i]; }
    bool check() const
    {
        const unsigned char* lo = raw.data();
        const unsigned char* b  = raw.data() + off + G * sizeof(T);
        const unsigned char* e  = b + n * sizeof(T);
        const unsigned char* hi = raw.data() + raw.size();
        for (const unsigned char* p = lo; p < b; ++p)
            if (*p != fill)
                return false;
        for (const unsigned char* p = e; p < hi; ++p)
            if (*p != fill)
                return false;
        return true;
    }
};
} // namespace vh
