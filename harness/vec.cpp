// Vector operations lane by lane; see spec/Vec.tla.  PART: 1 arrangements, 2 integers, 3 floats, 4 memory; VT: lane type.
// Script line: type lanes nops ops...
#include <kfr/base.hpp>
#include <kfr/simd/digitreverse.hpp>
#include <kfr/simd/horizontal.hpp>
#include <kfr/simd/round.hpp>
#include <kfr/simd/sort.hpp>
#include <numeric>
#include "gbuf.hpp"
#include "vh.hpp"
using namespace kfr;
using vh::rec;
using ll = long long;
using V  = std::vector<ll>;
#define NOINL __attribute__((noinline))
template <size_t N>
using C = std::integral_constant<size_t, N>;
template <size_t... Vs, typename F>
inline void each(F f)
{
    (f(C<Vs>{}), ...);
}
constexpr bool divides(size_t d, size_t n) { return d && n % d == 0; }

// ---- lanes to and from script values
template <typename T>
T lane(ll v)
{
    if constexpr (is_complex<T>)
        return T(subtype<T>(v), subtype<T>(-v));
    else
        return T(v);
}
template <typename T>
ll unlane(const T& v)
{
    if constexpr (is_complex<T>)
        return v.real() == -v.imag() ? vh::num(v.real()) : vh::NOT_INT;
    else
        return vh::num(v);
}
template <typename T, size_t N>
NOINL vec<T, N> load(const V& v)
{
    vec<T, N> r;
    for (size_t i = 0; i < N; ++i)
        r.set(i, lane<T>(v[i]));
    return r;
}

template <typename T, size_t N>
struct perms
{
    std::string op;
    V p, out;
    vec<T, N> x, y;
    T e;
    bool done = false;
    bool is(const char* name, std::initializer_list<size_t> ps)
    {
        if (done || op != name || ps.size() != p.size())
            return false;
        size_t i = 0;
        for (size_t q : ps)
            if (p[i++] != (ll)q)
                return false;
        return done = true;
    }
    template <size_t M>
    NOINL void put(const vec<T, M>& r)
    {
        for (size_t i = 0; i < M; ++i)
            out.push_back(unlane<T>(r.get(i)));
    }
    template <size_t... I>
    void permuted()
    {
        if constexpr (divides(sizeof...(I), N))
            if (is("permute", { I... }))
                put(permute<I...>(x));
    }
    template <size_t g, size_t... I>
    void permutedg()
    {
        if constexpr (divides(g * sizeof...(I), N))
            if (is("permutegroups", { g, I... }))
                put(permutegroups<g, I...>(x));
    }
    template <size_t... I>
    void blended()
    {
        if (is("blend", { I... }))
            put(blend<I...>(x, y));
    }
    NOINL void a()
    {
        if (is("concat2", {}))
            put(concat(x, y));
        if (is("concat3", {}))
            put(concat(x, y, x));
        if (is("concat4", {}))
            put(concat4(x, y, y, x));
        if (is("duphalves", {}))
            put(duphalves(x));
        if (is("dup", {}))
            put(dup(x));
        if constexpr (!is_complex<T>)
        if (is("zip", {}))
        {
            auto z = zip(x, y);
            for (size_t i = 0; i < N; ++i)
                put(vec<T, 2>(z.get(i)));
        }
        if constexpr (!is_complex<T>)
        if (is("zip4", {}))
        {
            auto z = zip(x, y, y, x);
            for (size_t i = 0; i < N; ++i)
                put(vec<T, 4>(z.get(i)));
        }
        if constexpr (!is_complex<T>)
        if (is("packtranspose", {}))
        {
            auto z = packtranspose(x, y);
            for (size_t i = 0; i < N; ++i)
                put(vec<T, 2>(z.get(i)));
        }
        if (is("lambda", {}))
            put(vec<T, N>([&](size_t i) { return y.get(N - 1 - i); }));
        if constexpr (N >= 2)
        {
            if (is("low", {}))
                put(low(x));
            if (is("high", {}))
                put(high(x));
            if (is("lowhalf", {}))
                put(lowhalf(x));
            if (is("highhalf", {}))
                put(highhalf(x));
            if (is("insertright", {}))
                put(insertright(e, x));
            if (is("insertleft", {}))
                put(insertleft(e, x));
        }
        if constexpr (divides(2, N))
        {
            if (is("dupeven", {}))
                put(dupeven(x));
            if (is("dupodd", {}))
                put(dupodd(x));
            if (is("duplow", {}))
                put(duplow(x));
            if (is("duphigh", {}))
                put(duphigh(x));
        }
        each<2, 3>([&](auto k) {
            if (is("repeat", { k.value }))
                put(repeat<k.value>(x));
        });
        each<N, N + 1, 2 * N, (N + 1) / 2>([&](auto k) {
            if (is("resize", { k.value }))
                put(vec<T, k.value>(resize<k.value>(x)));
        });
        each<2, N + 1, 2 * N>([&](auto k) {
            if (is("broadcast", { k.value }))
                put(broadcast<k.value, T>(T(x.get(0)), T(y.get(0))));
        });
        each<1, 3, N>([&](auto k) {
            if (is("padhigh", { k.value }))
                put(padhigh<k.value>(x, e));
            if (is("padlow", { k.value }))
                put(padlow<k.value>(x, e));
            if (is("padhighany", { k.value }))
                put(padhigh<k.value>(x));
            if (is("padlowany", { k.value }))
                put(padlow<k.value>(x));
        });
        each<N + 1, 2 * N>([&](auto k) {
            if (is("extend", { k.value }))
                put(extend<k.value>(x));
            if (is("widen", { k.value }))
                put(widen<k.value>(x, e));
        });
        each<1, (N + 1) / 2, N>([&](auto k) {
            if (is("narrow", { k.value }))
                put(narrow<k.value>(x));
            if (is("combine", { k.value }))
                put(combine(x, vec<T, k.value>(narrow<k.value>(y))));
        });
    }
    NOINL void b()
    {
        each<0, 1, N / 2, N - 1, N>([&](auto s) {
            each<1, 2, 3, N / 2, N - 1, N>([&](auto k) {
                if constexpr (k.value > 0 && s.value + k.value <= N)
                {
                    if (is("slice", { s.value, k.value }))
                        put(slice<s.value, k.value>(x));
                }
                if constexpr (k.value > 0 && s.value + k.value <= 2 * N)
                    if (is("slice2", { s.value, k.value }))
                        put(slice<s.value, k.value>(x, y));
                each<1, (N + 1) / 2, N>([&](auto m) {
                    if constexpr ((k.value == 1 || k.value == N) && s.value + k.value <= N + m.value)
                    {
                        if (is("cas", { s.value, k.value, m.value }))
                            put(concat_and_slice<s.value, k.value>(x, vec<T, m.value>(narrow<m.value>(y))));
                        if (is("sac", { s.value, k.value, m.value }))
                            put(concat_and_slice<s.value, k.value>(vec<T, m.value>(narrow<m.value>(x)), y));
                    }
                });
            });
        });
        if constexpr (divides(2, N))
            if (is("split", { 2 }))
            {
                vec<T, N / 2> l, h;
                split(x, l, h);
                put(l), put(h);
            }
        if constexpr (divides(4, N))
            if (is("split", { 4 }))
            {
                vec<T, N / 4> q[4];
                split(x, q[0], q[1], q[2], q[3]);
                for (auto& w : q)
                    put(w);
            }
        if constexpr (N >= 3)
            if (is("split", { 1 }))
            {
                vec<T, 1> l;
                vec<T, N - 1> h;
                split(x, l, h);
                put(l), put(h);
            }
        each<2, 3, 4>([&](auto d) {
            if constexpr (divides(d.value, N))
            {
                each<0, d.value - 1>([&](auto k) {
                    if (is("part", { d.value, k.value }))
                        put(part<d.value, k.value>(x));
                    if (is("column", { d.value, k.value }))
                        put(column<k.value>(vec<vec<T, d.value>, N / d.value>::from_flatten(x.flatten())));
                });
            }
        });
    }
    NOINL void c()
    {
        each<1, 2, 4>([&](auto g) {
            if constexpr (divides(2 * g.value, N))
            {
                if (is("even", { g.value }))
                    put(even<g.value>(x));
                if (is("odd", { g.value }))
                    put(odd<g.value>(x));
                if (is("interleavehalves", { g.value }))
                    put(interleavehalves<g.value>(x));
                if (is("splitpairs", { g.value }))
                    put(splitpairs<g.value>(x));
            }
            if constexpr (divides(g.value, N))
            {
                if (is("interleave", { g.value }))
                    put(interleave<g.value>(x, y));
                if (is("reverse", { g.value }))
                    put(reverse<g.value>(x));
            }
        });
        permuted<1, 0>(), permuted<0, 0>(), permuted<2, 0, 1>(), permuted<3, 2, 1, 0>(), permuted<0, 2, 1, 3>(), permuted<1, 1, 3, 2>(), permuted<0, 4, 1, 5, 2, 6, 3, 7>();
        permutedg<2, 1, 0>(), permutedg<4, 1, 0>(), permutedg<2, 3, 0, 2, 1>(), permutedg<4, 0, 2, 1, 3>(), permutedg<8, 0, 2, 1, 3>();
        blended<0>(), blended<1>(), blended<0, 1>(), blended<1, 0>(), blended<1, 1, 0>(), blended<0, 0, 1, 1>();
        if constexpr (divides(2, N))
            each<0, 1>([&](auto i) {
                each<0, 1>([&](auto j) {
                    if (is("shuffle", { i.value, j.value }))
                        put(shuffle<i.value, j.value + N>(x, y));
                });
            });
        if constexpr (divides(4, N))
            each<0, 1>([&](auto i) {
                if (is("shufflegroups", { 2, i.value, 1 - i.value }))
                    put(shufflegroups<2, i.value, 1 - i.value + N / 2>(x, y));
            });
        each<2, 4, 8>([&](auto k) {
            if constexpr (divides(k.value, N))
                if (is("swap", { k.value }))
                    put(swap<k.value>(x));
        });
        each<0, 1, N / 2, N - 1, N>([&](auto k) {
            if constexpr (k.value <= N)
                if (is("rotatetwo", { k.value }))
                    put(rotatetwo<k.value>(x, y));
            if constexpr (k.value < N)
            {
                if (is("rotateright", { k.value }))
                    put(rotateright<k.value>(x));
                if (is("rotateleft", { k.value }))
                    put(rotateleft<k.value>(x));
                if (is("set", { k.value }))
                {
                    vec<T, N> w = x;
                    w[k.value]  = e;
                    put(w);
                }
            }
        });
    }
    NOINL void d()
    {
        each<2, 3, 4, 8>([&](auto s) {
            each<1, 2>([&](auto g) {
                if constexpr (divides(s.value * g.value, N))
                {
                    if (is("transpose", { s.value, g.value }))
                        put(transpose<s.value, g.value>(x));
                    if (is("transposeinverse", { s.value, g.value }))
                        put(transposeinverse<s.value, g.value>(x));
                }
            });
        });
        each<1, 2>([&](auto g) {
            if constexpr (divides(g.value, N) && is_poweroftwo(N / g.value))
            {
                if (is("bitreverse", { g.value }))
                    put(bitreverse<g.value>(x));
                if constexpr (ilog2(N / g.value) % 2 == 0)
                    if (is("digitreverse4", { g.value }))
                        put(digitreverse4<g.value>(x));
            }
        });
    }
};

// ---- integers as bytes
template <typename T>
T frombytes(const V& v, size_t at)
{
    T r;
    unsigned char b[sizeof(T)];
    for (size_t i = 0; i < sizeof(T); ++i)
        b[i] = (unsigned char)v[at + i];
    memcpy(&r, b, sizeof(T));
    return r;
}
template <typename T, size_t N>
NOINL vec<T, N> loadb(const V& v)
{
    vec<T, N> r;
    for (size_t i = 0; i < N; ++i)
        r.set(i, frombytes<T>(v, i * sizeof(T)));
    return r;
}
template <typename T>
std::string bytes(const T& x)
{
    unsigned char b[sizeof(T)];
    memcpy(b, &x, sizeof(T));
    std::string s = "[";
    for (size_t i = 0; i < sizeof(T); ++i)
        s += (i ? "," : "") + std::to_string((int)b[i]);
    return s + "]";
}
template <typename T, size_t M>
std::string byteslist(const vec<T, M>& r)
{
    std::string s = "[";
    for (size_t i = 0; i < M; ++i)
        s += (i ? "," : "") + bytes<T>(r.get(i));
    return s + "]";
}
template <typename F>
NOINL void compared(const std::string& c, F f)
{
    if (c == "lt") return f([](const auto& a, const auto& b) { return a < b; });
    if (c == "gt") return f([](const auto& a, const auto& b) { return a > b; });
    if (c == "le") return f([](const auto& a, const auto& b) { return a <= b; });
    if (c == "ge") return f([](const auto& a, const auto& b) { return a >= b; });
    if (c == "eq") return f([](const auto& a, const auto& b) { return a == b; });
    return f([](const auto& a, const auto& b) { return a != b; });
}
template <typename M>
V lanesof(const M& m, ll w = 1)
{
    V r;
    for (size_t i = 0; i < M::size(); ++i)
        r.push_back(m.get(i) ? w : 0);
    return r;
}

template <typename T, size_t N>
struct ints
{
    std::string op, c, res;
    ll k;
    vec<T, N> x, y, z;
    bool is(const char* n) { return op == n; }
    template <typename U, size_t M>
    NOINL void put(const vec<U, M>& r) { res = byteslist(r); }
    NOINL void put1(const T& r) { res = "[" + bytes(r) + "]"; }
    NOINL void nums(const V& v)
    {
        res = "[";
        for (size_t i = 0; i < v.size(); ++i)
            res += (i ? "," : "") + std::to_string(v[i]);
        res += "]";
    }
    NOINL void a()
    {
        if (is("add")) put(x + y);
        if (is("sub")) put(x - y);
        if (is("mul")) put(x * y);
        if constexpr (N <= 8)
        {
            vec<T, N> d;
            for (size_t i = 0; i < N; ++i)
                d.set(i, T((utype<T>(y.get(i)) >> 1) | 1));
            if (is("div")) put(x / d);
            if (is("mod")) put(x % d);
        }
        if (is("and")) put(x & y);
        if (is("or")) put(x | y);
        if (is("xor")) put(x ^ y);
        if (is("andnot")) put(vec<T, N>(bitwiseandnot(x, y)));
        if (is("not")) put(vec<T, N>(~x));
        if (is("neg")) put(vec<T, N>(-x));
        if (is("shl")) put(x << unsigned(k));
        if (is("shr")) put(x >> unsigned(k));
        if (is("shlv") || is("shrv"))
        {
            vec<utype<T>, N> s;
            for (size_t i = 0; i < N; ++i)
                s.set(i, utype<T>(y.get(i)) % 256 % (8 * sizeof(T)));
            put(is("shlv") ? vec<T, N>(x << s) : vec<T, N>(x >> s));
        }
        if constexpr (std::is_unsigned_v<T>)
        {
            if (is("rol")) put(vec<T, N>(rol(x, vec<T, N>(T(k)))));
            if (is("ror")) put(vec<T, N>(ror(x, vec<T, N>(T(k)))));
        }
        if (is("addeach")) put(vec<T, N>(x + T(y.get(0))));
        if (is("fmadd")) put(vec<T, N>(fmadd(x, y, z)));
        if (is("swapbytes")) put(swapbyteorder(x));
        if constexpr (N >= 2)
        {
            if (is("addsub")) put(addsub(x, y));
            if (is("subadd")) put(subadd(x, y));
        }
    }
    NOINL void b()
    {
        if (is("min")) put(vec<T, N>(kfr::min(x, y)));
        if (is("max")) put(vec<T, N>(kfr::max(x, y)));
        if (is("absmin")) put(vec<T, N>(absmin(x, y)));
        if (is("absmax")) put(vec<T, N>(absmax(x, y)));
        if (is("abs")) put(vec<T, N>(kfr::abs(x)));
        if (is("clamp"))
        {
            vec<T, N> lo, hi;
            for (size_t i = 0; i < N; ++i)
            {
                T a = y.get(i), b = z.get(i);
                lo.set(i, a < b ? a : b), hi.set(i, a < b ? b : a);
            }
            put(vec<T, N>(kfr::clamp(x, lo, hi)));
        }
        if (is("satadd")) put(vec<T, N>(satadd(x, y)));
        if (is("satsub")) put(vec<T, N>(satsub(x, y)));
        if constexpr (N <= 32)
            if (is("partialmask")) put(partial_mask<T, N>(size_t(k)));
        if (is("hadd")) put1(hadd(x));
        if (is("hmul")) put1(hmul(x));
        if (is("hand")) put1(hbitwiseand(x));
        if (is("hor")) put1(hbitwiseor(x));
        if (is("hxor")) put1(hbitwisexor(x));
        if (is("hmin")) put1(hmin(x));
        if (is("hmax")) put1(hmax(x));
        if (is("hdot")) put1(hdot(x, y));
        if constexpr (N >= 4 && is_poweroftwo(N))
        {
            if (is("sort")) put(kfr::sort(x));
            if (is("sortdesc")) put(sortdesc(x));
        }
    }
    NOINL void d()
    {
        compared(c, [&](auto cmp) {
            auto m = cmp(x, y);
            if (is("mask")) nums(lanesof(m));
            if (is("all")) nums({ all(m) });
            if (is("any")) nums({ any(m) });
            if (is("select")) put(vec<T, N>(select(m, z, x)));
            if (is("maskops"))
            {
                auto w = cmp(y, z);
                V r = lanesof(m && w), q = lanesof(m || w, 2), s = lanesof(m ^ w, 4), t = lanesof(!m, 8);
                for (size_t i = 0; i < N; ++i)
                    r[i] += q[i] + s[i] + t[i];
                nums(r);
            }
        });
    }
    NOINL void e()
    {
        if (is("cast"))
        {
            bool s = c == "eq" || c == "lt"; // signed target
            k == 1 ? (s ? put(cast<i8>(x)) : put(cast<u8>(x))) : k == 2 ? (s ? put(cast<i16>(x)) : put(cast<u16>(x))) : k == 4 ? (s ? put(cast<i32>(x)) : put(cast<u32>(x))) : (s ? put(cast<i64>(x)) : put(cast<u64>(x)));
        }
        if (is("bitcast"))
        {
            auto back = [&](auto w) { put(bitcast<T>(w)); };
            if (k == 1)
                back(bitcast<u8>(x));
            if constexpr (N * sizeof(T) % 2 == 0)
                if (k == 2)
                    back(bitcast<i16>(x));
            if constexpr (N * sizeof(T) % 4 == 0)
                if (k == 4)
                    back(bitcast<f32>(x));
            if constexpr (N * sizeof(T) % 8 == 0)
                if (k == 8)
                    back(bitcast<u64>(x));
            if (res.empty())
                back(bitcast<T>(x));
        }
    }
};

// ---- floats in sixteenths
template <typename T>
T fval(ll v)
{
    return v == vh::IS_NAN ? std::numeric_limits<T>::quiet_NaN() : v == 1000000001 ? std::numeric_limits<T>::infinity() : v == -1000000001 ? -std::numeric_limits<T>::infinity() : v == 1000000002 ? T(-0.0) : T(v) / 16;
}
template <typename T>
ll sixteenths(T v)
{
    return v != v ? vh::IS_NAN : std::isinf(v) ? (v > 0 ? 1000000001 : -1000000001) : vh::num(double(v) * 16);
}
template <typename T, size_t N>
struct flts
{
    std::string op, c;
    V out;
    ll k;
    vec<T, N> x, y, z;
    bool is(const char* n) { return op == n; }
    NOINL void put(const vec<T, N>& r)
    {
        for (size_t i = 0; i < N; ++i)
            out.push_back(sixteenths<T>(r.get(i)));
    }
    void put1(T r) { out.push_back(sixteenths<T>(r)); }
    template <typename U>
    NOINL void puti(const vec<U, N>& r)
    {
        for (size_t i = 0; i < N; ++i)
            out.push_back(vh::num(r.get(i)));
    }
    static V lanes(const vec<T, N>& x)
    {
        V r;
        for (size_t i = 0; i < N; ++i)
            r.push_back((ll)x.get(i));
        return r;
    }
    template <typename U>
    NOINL void conv(bool to)
    {
        if (to)
            puti<U>(cast<U>(x));
        else
        {
            vec<U, N> w;
            V l = lanes(x);
            for (size_t i = 0; i < N; ++i)
                w.set(i, U(l[i]));
            put(cast<T>(w));
        }
    }
    NOINL void a()
    {
        if (is("add")) put(x + y);
        if (is("sub")) put(x - y);
        if (is("mul")) put(x * y);
        if (is("neg")) put(-x);
        if (is("abs")) put(kfr::abs(x));
        if (is("min")) put(kfr::min(x, y));
        if (is("max")) put(kfr::max(x, y));
        if (is("absmin")) put(absmin(x, y));
        if (is("absmax")) put(absmax(x, y));
        if (is("clamp")) put(kfr::clamp(x, kfr::min(y, z), kfr::max(y, z)));
        if (is("floor")) put(kfr::floor(x));
        if (is("ceil")) put(kfr::ceil(x));
        if (is("trunc")) put(kfr::trunc(x));
        if (is("fract")) put(fract(x));
        if (is("round"))
        {
            vec<T, N> w = x;
            for (size_t i = 0; i < N; ++i)
                if (sixteenths<T>(w.get(i) - std::floor(w.get(i))) == 8)
                    w.set(i, w.get(i) + T(1) / 16);
            put(kfr::round(w));
        }
        if (is("ifloor")) puti(ifloor(x));
        if (is("iceil")) puti(iceil(x));
        if (is("itrunc")) puti(itrunc(x));
        if (is("fmod"))
        {
            vec<T, N> w = y;
            for (size_t i = 0; i < N; ++i)
                if (w.get(i) == 0)
                    w.set(i, T(0.75));
            put(kfr::fmod(x, w));
        }
        if (is("fmadd")) put(fmadd(x, y, z));
        if (is("mulsign")) put(mulsign(x, y));
        if (is("copysign")) put(kfr::copysign(x, y));
        if (is("negeven")) put(negeven(x));
        if (is("negodd")) put(negodd(x));
        if (is("horner")) put(horner(x, T(3), T(2), T(1)));
        if constexpr (N >= 2)
        {
            if (is("addsub")) put(addsub(x, y));
            if (is("subadd")) put(subadd(x, y));
        }
    }
    NOINL void b()
    {
        if (is("hadd")) put1(hadd(x));
        if (is("hmul")) put1(hmul(x));
        if (is("hmin")) put1(hmin(x));
        if (is("hmax")) put1(hmax(x));
        if (is("hdot")) put1(hdot(x, y));
        if (is("havg")) put1(havg(x) * N);
        if (is("enumerate")) put(enumerate<T, N>());
        if (is("enumerate2")) put(enumerate<5, 3>(vec_shape<T, N>{}));
        if (is("steps")) put(enumerate(vec_shape<T, N>{}, T(x.get(0))));
        if (is("onoff")) put(onoff<T, N>());
        if constexpr (N >= 4 && is_poweroftwo(N))
        {
            if (is("sort")) put(kfr::sort(x));
            if (is("sortdesc")) put(sortdesc(x));
        }
        if (is("toint") || is("fromint"))
        {
            bool to = is("toint");
            k == 0 ? conv<i32>(to) : k == 1 ? conv<i64>(to) : k == 2 ? conv<i16>(to) : conv<i32>(to);
        }
    }
    NOINL void d()
    {
        compared(c, [&](auto cmp) {
            auto m = cmp(x, y);
            auto add = [&](V v) { out.insert(out.end(), v.begin(), v.end()); };
            if (is("mask")) add(lanesof(m));
            if (is("all")) add({ all(m) });
            if (is("any")) add({ any(m) });
            if (is("select")) put(select(m, z, x));
        });
        if (is("classes"))
        {
            V r(N);
            V w[6] = { lanesof(isnan(x), 1), lanesof(isinf(x), 2), lanesof(isfinite(x), 4), lanesof(isnegative(x), 8), lanesof(iszero(x), 16), lanesof(ispositive(x), 32) };
            for (size_t i = 0; i < N; ++i)
            {
                T q = x.get(i);
                for (int j = 0; j < 6; ++j)
                    r[i] += (q != q && (j == 3 || j == 5)) ? 0 : w[j][i]; // the sign of a NaN is not specified
            }
            out = r;
        }
    }
};

// ---- memory
template <typename T, size_t N>
struct mems
{
    size_t M;
    T* buf;
    std::string op;
    ll off, g, stride;
    V idx, val, out;
    bool is(const char* n) { return op == n; }
    template <size_t K>
    NOINL void put(const vec<T, K>& r)
    {
        for (size_t i = 0; i < K; ++i)
            out.push_back(unlane<T>(r.get(i)));
    }
    template <size_t G>
    NOINL void grouped()
    {
        vec<u32, N> ix;
        for (size_t i = 0; i < N; ++i)
            ix.set(i, u32(idx[i]));
        if (is("gather")) put(gather<G>((const T*)buf + off, ix));
        if (is("scatter")) scatter<G>(buf + off, ix, load<T, N * G>(val));
        if constexpr (G == 1)
            if (is("gstride")) put(gather_stride<N>((const T*)buf + off, size_t(stride)));
        if (is("sstride")) scatter_stride<G>(buf + off, load<T, N * G>(val), size_t(stride));
        if constexpr (!is_complex<T>)
        {
            if (is("rgroup")) put(read_group<2, N, G>((const T*)buf + off, size_t(stride)));
            if (is("wgroup")) write_group<2, N, G>(buf + off, size_t(stride), load<T, 2 * N * G>(val));
        }
    }
    NOINL void a()
    {
        if (is("read")) put(read<N>((const T*)buf + off));
        if (is("ctor")) put(vec<T, N>((const T*)buf + off));
        if (is("aread")) put(read<N, true>((const T*)buf));
        if (is("write")) write(buf + off, load<T, N>(val));
        if (is("awrite")) write<true>(buf, load<T, N>(val));
        if (is("member")) load<T, N>(val).write(buf + off);
        if (is("gfix")) put(gather_stride<N, 3>((const T*)buf + off));
        g == 1 ? grouped<1>() : grouped<2>();
    }
};


inline V values(vh::in_t& in, size_t n)
{
    V v(n);
    for (auto& q : v)
        q = in.i();
    return v;
}
template <typename T, size_t N>
void run(vh::in_t& in, const std::string& type)
{
    size_t M = in.i(), nops = in.i();
    rec("init").str("t", type).i("n", N).b("signed", std::is_signed_v<T>).list("m", [&] { V v(M); for (size_t i = 0; i < M; ++i) v[i] = i % 97 + 1; return v; }()).out();
#if PART == 4
    size_t bytes = (M ? M : 1) * sizeof(T);
    void* p      = nullptr;
    if (posix_memalign(&p, 64, bytes))
        exit(3);
    T* buf = (T*)p;
    for (size_t i = 0; i < M; ++i)
        buf[i] = lane<T>(i % 97 + 1);
#endif
    for (size_t o = 0; o < nops; ++o)
    {
        std::string op = in.word();
#if PART == 1
        perms<T, N> q;
        q.op = op, q.p = in.list();
        V x = values(in, N), y = values(in, N);
        ll e = in.i();
        q.x = load<T, N>(x), q.y = load<T, N>(y), q.e = lane<T>(e);
        q.a(), q.b(), q.c(), q.d();
        rec("perm").str("op", op).list("p", q.p).list("x", x).list("y", y).i("e", e).b("done", q.done).list("r", q.out).out();
#elif PART == 2
        ints<T, N> q;
        q.op = op, q.c = in.word(), q.k = in.i();
        V w[3];
        std::string txt[3];
        vec<T, N>* t[3] = { &q.x, &q.y, &q.z };
        for (int i = 0; i < 3; ++i)
            w[i] = values(in, N * sizeof(T)), *t[i] = loadb<T, N>(w[i]), txt[i] = byteslist(*t[i]);
        q.a(), q.b(), q.d(), q.e();
        rec r("int");
        r.str("op", op).str("c", q.c).i("k", q.k);
        for (int i = 0; i < 3; ++i)
            r.key(i == 0 ? "x" : i == 1 ? "y" : "z"), r.s += txt[i];
        r.key("r"), r.s += q.res.empty() ? "[]" : q.res;
        r.out();
#elif PART == 3
        flts<T, N> q;
        q.op = op, q.c = in.word(), q.k = in.i();
        V w[3];
        vec<T, N>* t[3] = { &q.x, &q.y, &q.z };
        for (int i = 0; i < 3; ++i)
        {
            w[i] = values(in, N);
            for (size_t j = 0; j < N; ++j)
                t[i]->set(j, fval<T>(w[i][j]));
        }
        q.a(), q.b(), q.d();
        rec("flt").str("op", op).str("c", q.c).i("k", q.k).list("x", w[0]).list("y", w[1]).list("z", w[2]).list("r", q.out).out();
#else
        mems<T, N> q;
        q.M = M, q.buf = buf, q.op = op, q.off = in.i(), q.g = in.i(), q.stride = in.i();
        q.idx = values(in, N), q.val = in.list();
        q.a();
        V now;
        for (size_t i = 0; i < M; ++i)
            now.push_back(unlane<T>(buf[i]));
        rec("mem").str("op", op).i("off", q.off).i("g", q.g).i("stride", q.stride).list("idx", q.idx).list("val", q.val).list("r", q.out).list("m", now).out();
#endif
    }
#if PART == 4
    free(p);
#endif
}

int main()
{
    vh::in_t in;
    while (in.line())
    {
        std::string type = in.word();
        size_t n         = in.i();
        bool found       = false;
        each<1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 17, 32, 64>([&](auto k) {
            if (n == k.value)
                found = true, run<VT, k.value>(in, type);
        });
        if (!found)
            return 3;
    }
}
