// Matrix transposition; see spec/Transpose.tla.  Script line: type nops (mode mis dims extents...)...
#include <kfr/base.hpp>
#include "vh.hpp"
#include <utility>
using namespace kfr;
using vh::rec;
using list_t = std::vector<long long>;
using run_t  = std::array<long long, 4>;

template <typename T>
struct elem
{
    static constexpr long long mod = sizeof(T) == 1 ? 251 : sizeof(T) == 2 ? 32749 : 1000000000;
    static T make(long long id) { return (T)id; }
    static long long get(const T& x) { return vh::num(x); }
};
template <typename T>
struct elem<complex<T>>
{
    static constexpr long long mod = 1000000000;
    static complex<T> make(long long id) { return complex<T>((T)id, (T)(-id - 1)); }
    static long long get(const complex<T>& x) { return x.imag() == -x.real() - 1 ? vh::num(x.real()) : vh::NOT_INT; }
};
template <typename T, size_t N>
struct elem<vec<T, N>>
{
    static constexpr long long mod = 1000000000;
    static vec<T, N> make(long long id)
    {
        vec<T, N> v;
        for (size_t i = 0; i < N; ++i)
            v[i] = (T)(id + (long long)i * 300000);
        return v;
    }
    static long long get(const vec<T, N>& x)
    {
        long long id = vh::num(x[0]);
        for (size_t i = 1; i < N; ++i)
            if (vh::num(x[i]) != id + (long long)i * 300000)
                return vh::NOT_INT;
        return id;
    }
};

static std::vector<run_t> runs(const list_t& v)
{
    std::vector<run_t> r;
    for (size_t i = 0; i < v.size();)
    {
        if (i + 1 == v.size())
        {
            r.push_back({ (long long)i, v[i], 0, 1 });
            break;
        }
        long long step = v[i + 1] - v[i];
        size_t j       = i + 2;
        while (j < v.size() && v[j] - v[j - 1] == step)
            ++j;
        if (std::abs(step) > 100000000)
        {
            r.push_back({ (long long)i, v[i], 0, 1 });
            ++i;
            continue;
        }
        r.push_back({ (long long)i, v[i], step, (long long)(j - i) });
        i = j;
    }
    return r;
}
static void emit(rec& r, const std::vector<run_t>& v)
{
    r.key("runs");
    r.s += "[";
    for (size_t i = 0; i < v.size(); ++i)
    {
        r.s += i ? ",[" : "[";
        for (size_t j = 0; j < 4; ++j)
            r.s += (j ? "," : "") + std::to_string(v[i][j]);
        r.s += "]";
    }
    r.s += "]";
}
template <typename T>
list_t ids(const T* p, size_t n)
{
    list_t v(n);
    for (size_t i = 0; i < n; ++i)
        v[i] = elem<T>::get(p[i]);
    return v;
}

template <typename T, index_t D>
void go(int mode, size_t mis, const list_t& ext)
{
    shape<D> sh, rev;
    for (index_t i = 0; i < D; ++i)
        sh[i] = (index_t)ext[i], rev[D - 1 - i] = (index_t)ext[i];
    size_t n = sh.product();
    vh::guarded<T> src(n + mis), dst(n + mis);
    T* s = src.data() + mis;
    T* d = dst.data() + mis;
    for (size_t i = 0; i < n; ++i)
    {
        new (s + i) T(elem<T>::make((long long)i % elem<T>::mod));
        new (d + i) T(elem<T>::make(200000000));
    }
    list_t before = ids(s, n);
    T* out        = mode == 0 ? d : s;
    matrix_transpose(out, (const T*)s, sh);
    list_t o     = ids(out, n);
    bool kept    = mode != 0 || ids(s, n) == before;
    auto byout   = runs(o);
    const char* by = "out";
    if (elem<T>::mod == 1000000000)
    {
        list_t pos(n, -1);
        for (size_t i = 0; i < n; ++i)
            if (o[i] >= 0 && (size_t)o[i] < n)
                pos[o[i]] = (long long)i;
        auto byin = runs(pos);
        if (byin.size() < byout.size())
            by = "in", byout = byin;
    }
    rec r("T");
    r.list("shape", ext).str("by", by).i("mod", elem<T>::mod).b("ok", src.check() && dst.check()).b("src", kept);
    emit(r, byout);
    r.out();
    if (mode == 2)
    {
        matrix_transpose(out, (const T*)out, rev);
        rec b("B");
        b.list("shape", ext).i("mod", elem<T>::mod).b("ok", src.check() && dst.check());
        emit(b, runs(ids(out, n)));
        b.out();
    }
}
template <typename T>
void script(vh::in_t& in)
{
    size_t nops = (size_t)in.i();
    for (size_t k = 0; k < nops; ++k)
    {
        int mode   = (int)in.i();
        size_t mis = (size_t)in.i();
        list_t e   = in.list();
        switch (e.size())
        {
        case 1: go<T, 1>(mode, mis, e); break;
        case 2: go<T, 2>(mode, mis, e); break;
        case 3: go<T, 3>(mode, mis, e); break;
        case 4: go<T, 4>(mode, mis, e); break;
        default: go<T, 5>(mode, mis, e); break;
        }
    }
}
int main()
{
    vh::in_t in;
    while (in.line())
    {
        std::string t = in.word();
        rec("init").str("v", t).out();
        if (t == "u8")
            script<uint8_t>(in);
        else if (t == "i16")
            script<int16_t>(in);
        else if (t == "f32")
            script<float>(in);
        else if (t == "f64")
            script<double>(in);
        else if (t == "c32")
            script<complex<float>>(in);
        else if (t == "c64")
            script<complex<double>>(in);
        else if (t == "v3")
            script<vec<float, 3>>(in);
        else
            script<vec<double, 4>>(in);
    }
}
