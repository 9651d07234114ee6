// NPY files; see spec/Npy.tla.  Script line: nops ops...
#include <kfr/base.hpp>
#include <kfr/base/npy.hpp>
#include <unistd.h>
#include "vh.hpp"
using namespace kfr;
using vh::rec;

template <typename T>
static T val(long long i)
{
    if constexpr (std::is_same_v<T, bool>)
        return i % 3 == 1;
    else if constexpr (is_complex<T>)
        return T(i % 120, -(i % 7));
    else if constexpr (sizeof(T) == 1)
        return T(i % 120);
    else if constexpr (sizeof(T) == 2)
        return T((i * 259) % 30000 / (std::is_integral_v<T> ? 1 : 4));
    else
        return T(i * 65793 % 16000000);
}
template <typename T>
static std::string num(const T& v)
{
    if constexpr (is_complex<T>)
        return std::to_string(vh::num(v.real())) + "," + std::to_string(vh::num(v.imag()));
    else if constexpr (std::is_same_v<T, bool>)
    {
        unsigned char c; // damage may have put anything there
        std::memcpy(&c, &v, 1);
        return std::to_string((int)c);
    }
    else
        return std::to_string(vh::num(v));
}
template <typename T>
constexpr size_t word = is_complex<T> ? sizeof(T) / 2 : sizeof(T); // what the byte order applies to

template <index_t D>
static shape<D> to_shape(const std::vector<long long>& v)
{
    shape<D> s;
    for (index_t i = 0; i < D; ++i)
        s[i] = v[i];
    return s;
}
template <typename T, index_t D, typename F>
static void each(const tensor<T, D>& t, F f) // C order, one element at a time
{
    shape<D> ix{ 0 };
    size_t n = 1;
    for (index_t i = 0; i < D; ++i)
        n *= t.shape()[i], ix[i] = 0;
    while (n--)
    {
        f(t.access(ix));
        for (index_t a = D; a-- > 0;)
        {
            if (++ix[a] < t.shape()[a])
                break;
            ix[a] = 0;
        }
    }
}
template <typename T, index_t D>
static void load(rec& r, const std::string& bytes)
{
    tensor<T, D> dst(shape<D>(1), val<T>(7));
    const T* before = dst.data();
    size_t pos      = 0;
    std::vector<char> copy(bytes.begin(), bytes.end());
    alarm(20); // loading has to end
    npy_decode_result res = load_from_npy(dst, [&](void* d, size_t n) -> bool {
        if (n > copy.size() - pos)
            return false;
        std::memcpy(d, copy.data() + pos, n);
        pos += n;
        return true;
    });
    alarm(0);
    r.str("res", res == npy_decode_result::ok ? "ok" : "error");
    // an error leaves the destination alone
    r.b("kept", dst.data() == before && dst.shape() == shape<D>(1) && dst.data()[0] == val<T>(7));
    r.key("lshape");
    r.s += "[";
    double total = 1;
    for (index_t i = 0; i < D; ++i)
        r.s += (i ? "," : "") + std::to_string(vh::num((unsigned long long)dst.shape()[i])), total *= dst.shape()[i];
    r.s += "]";
    r.b("size", total == (double)dst.size() && total <= 100000);
    r.key("vals");
    r.s += "[";
    bool first = true;
    if (res == npy_decode_result::ok && total <= 100000)
        each(dst, [&](const T& v) { r.s += (first ? "" : ",") + num(v), first = false; });
    r.s += "]";
}
static const char* codes[] = { "u1", "u2", "u4", "u8", "i1", "i2", "i4", "i8", "f4", "f8", "c8", "c16", "b1" };

template <typename T, index_t D>
static void op(vh::in_t& in, const std::string& o, int type)
{
    if (o == "S") // save an array or a view and load it back
    {
        auto sh        = in.list();
        int view       = in.i();
        long long cut  = in.i();
        tensor<T, D> t;
        std::vector<T> store;
        if (view == 0) // contiguous
            t = tensor<T, D>(to_shape<D>(sh));
        else // Fortran order, or with gaps
        {
            shape<D> st;
            size_t x = view;
            if (view == 1)
                for (index_t i = 0; i < D; ++i)
                    st[i] = x, x *= sh[i];
            else
                for (index_t i = D; i-- > 0;)
                    st[i] = x, x *= sh[i] + 1;
            auto* p = aligned_allocate<T>(x + 8);
            std::fill_n(p, x + 8, val<T>(5));
            t = tensor<T, D>(p, to_shape<D>(sh), st, make_memory_finalizer([p]() { aligned_deallocate(p); }));
        }
        {
            shape<D> ix{ 0 };
            for (index_t i = 0; i < D; ++i)
                ix[i] = 0;
            size_t n = 1;
            for (auto v : sh)
                n *= v;
            for (size_t k = 0; k < n; ++k)
            {
                t.access(ix) = val<T>(k);
                for (index_t a = D; a-- > 0;)
                {
                    if (++ix[a] < t.shape()[a])
                        break;
                    ix[a] = 0;
                }
            }
        }
        std::string bytes;
        save_to_npy(t, [&](const void* d, size_t n) { bytes.append((const char*)d, n); });
        rec r("S");
        r.str("code", codes[type]);
        r.list("shape", sh);
        size_t hl = (unsigned char)bytes[8] + 256 * (unsigned char)bytes[9];
        r.b("magic", bytes.substr(0, 8) == std::string("\x93NUMPY\x01\x00", 8));
        std::string text = bytes.substr(10, hl);
        r.b("aligned", (10 + hl) % 64 == 0 && !text.empty() && text.back() == '\n');
        if (!text.empty())
            text.pop_back();
        size_t e = text.find_last_not_of(' ');
        r.str("text", text.substr(0, e == std::string::npos ? 0 : e + 1));
        r.i("bytes", bytes.size() - 10 - hl).i("elem", sizeof(T));
        // data as little-endian words, as they are in the file
        r.key("vals_in");
        r.s += "[";
        bool first = true;
        each(t, [&](const T& v) { r.s += (first ? "" : ",") + num(v), first = false; });
        r.s += "]";
        r.b("data", [&] {
            std::string w;
            each(t, [&](const T& v) { w.append((const char*)&v, sizeof(T)); });
            return bytes.substr(10 + hl) == w;
        }());
        cut = std::min<long long>(cut, bytes.size());
        r.i("cut", cut);
        bytes.resize(bytes.size() - cut);
        load<T, D>(r, bytes);
        r.out();
        return;
    }
    // L: a file made up here, possibly damaged
    int ver           = in.i();
    std::string order = in.word(); // f or c
    std::string pre   = in.word(); // prefix of the type, _ for none
    int code          = in.i();
    auto sh           = in.list();
    int perm          = in.i(); // order of the fields
    int missing       = in.i(); // 0 or the field left out
    int dup           = in.i(); // 0 or the field given twice (the second counts)
    int extra         = in.i(); // an unknown field
    int style         = in.i(); // 0 as numpy, 1 no trailing comma, 2 no spaces
    int big           = in.i(); // 0 or which extent is huge
    long long have    = in.i(); // elements of data present
    long long cut     = in.i(); // bytes cut from the end
    size_t nm         = in.i(); // damaged bytes of the header
    rec r("L");
    r.str("dest", codes[type]).str("code", codes[code]).str("order", order).str("pre", pre).i("dims", D).i("ver", ver);
    r.list("shape", sh).i("missing", missing).i("dup", dup).i("extra", extra).i("style", style).i("big", big).i("have", have).i("cut", cut).i("damage", nm).i("elem", sizeof(T)).i("parts", is_complex<T> ? 2 : 1).i("word", word<T>);
    static const char* huge[] = { "", "99999999999999999999999", "18446744073709551617", "4294967296", "9223372036854775808", "2305843009213693952" };
    std::string sp = style == 2 ? "" : " ", shp = "(";
    for (size_t i = 0; i < sh.size(); ++i)
        shp += (i ? "," + sp : "") + (big && i == 0 ? huge[big] : std::to_string(sh[i]));
    if (big == 3 && D > 1) // the product wraps around
    {
        shp = "(4294967296," + sp + "4294967297";
        for (index_t i = 2; i < D; ++i)
            shp += "," + sp + "1";
    }
    shp += sh.size() == 1 ? ",)" : ")";
    std::string f[3] = { "'descr':" + sp + "'" + (pre == "_" ? "" : pre) + codes[code] + "'", "'fortran_order':" + sp + (order == "f" ? "True" : "False"), "'shape':" + sp + shp };
    static const char* wrong[] = { "", "'descr': '<f2'", "'fortran_order': True", "'shape': (3, 3)" };
    static const char* extras[] = { "", "'x': 'a, {'", "'x': (1, [2, 3], {'k': 4})", "'x': 15", "'x': \"q'\"", "'x': (1, 2", "'x': [1)", "'x': ]" };
    static const int perms[6][3] = { { 0, 1, 2 }, { 0, 2, 1 }, { 1, 0, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 } };
    std::vector<std::string> fs;
    if (dup)
        fs.push_back(wrong[dup]);
    for (int i = 0; i < 3; ++i)
    {
        if (perms[perm][i] + 1 != missing)
            fs.push_back(f[perms[perm][i]]);
        if (i == 1 && extra)
            fs.push_back(extras[extra]);
    }
    std::string h = "{";
    for (size_t i = 0; i < fs.size(); ++i)
        h += (i ? "," + sp : "") + fs[i];
    h += style == 0 ? ", }" : "}";
    size_t lead = 8 + (ver >= 2 ? 4 : 2);
    while ((lead + h.size() + 1) % 64)
        h += ' ';
    h += '\n';
    std::string b = "\x93NUMPY";
    b += char(ver), b += char(0);
    for (size_t i = 0, n = h.size(); i < lead - 8; ++i, n >>= 8)
        b += char(n & 255);
    b += h;
    const size_t data = b.size();
    std::vector<std::string> els;
    for (long long i = 0; i < have; ++i)
    {
        T v = val<T>(i);
        char w[sizeof(T)];
        std::memcpy(w, &v, sizeof(T));
        if (pre == ">")
            for (size_t k = 0; k < sizeof(T); k += word<T>)
                std::reverse(w + k, w + k + word<T>);
        b.append(w, sizeof(T));
        els.push_back(num(v));
    }
    bool unclosed = false;
    for (size_t i = 0; i < nm; ++i)
    {
        long long kind = in.i(), at = in.i(), c = in.i();
        unclosed |= kind >= 3;
        if (kind == 3) // a text cut short, and a length that says so
        {
            size_t keep = size_t(at) % (h.rfind('}') + 1);
            b.erase(lead + keep, h.size() - keep);
            for (size_t i = 0, n = keep; i < lead - 8; ++i, n >>= 8)
                b[8 + i] = char(n & 255);
        }
        else if (kind == 4) // the file ends before the text
            b.resize(size_t(at) % (lead + 1));
        else if (kind == 0)
            b[at % data] = char(c);
        else if (kind == 1)
            b.erase(at % data, 1);
        else
            b.insert(at % data, 1, char(c));
    }
    b.resize(b.size() - std::min<size_t>(b.size(), cut));
    r.key("data");
    r.s += "[";
    for (size_t i = 0; i < els.size(); ++i)
        r.s += (i ? "," : "") + els[i];
    r.s += "]";
    r.b("unclosed", unclosed);
    r.i("room", (long long)b.size()); // no more data than there are bytes
    load<T, D>(r, b);
    r.out();
}
template <typename F>
static void with(int t, F f)
{
    switch (t)
    {
    case 0: return f(u8());
    case 1: return f(u16());
    case 2: return f(u32());
    case 3: return f(u64());
    case 4: return f(i8());
    case 5: return f(i16());
    case 6: return f(i32());
    case 7: return f(i64());
    case 8: return f(f32());
    case 9: return f(f64());
    case 10: return f(complex<f32>());
    case 11: return f(complex<f64>());
    default: return f(bool());
    }
}
int main()
{
    vh::in_t in;
    while (in.line())
    {
        rec("init").out();
        for (size_t nops = in.i(); nops--;)
        {
            std::string o = in.word();
            int t = in.i(), d = in.i();
            with(t, [&](auto a) {
                using T = decltype(a);
                if (d == 1) op<T, 1>(in, o, t);
                else if (d == 2) op<T, 2>(in, o, t);
                else if (d == 3) op<T, 3>(in, o, t);
                else if constexpr (std::is_same_v<T, u8> || std::is_same_v<T, f32> || std::is_same_v<T, complex<f64>>) op<T, 4>(in, o, t);
                else op<T, 2>(in, o, t);
            });
        }
    }
}
