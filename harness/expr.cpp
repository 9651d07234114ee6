// Random expression trees evaluated through the real expression templates; see spec/Expr.tla.
// Script line: nops, then ops  E tree w ax dk mis rank d.. st.. n..  |  G tree w ax rank ix..  |  P tree tree w n
#include <kfr/base.hpp>
#include "vh.hpp"
#include <deque>
#include <memory>
using namespace kfr;
using vh::rec;
using list_t = std::vector<long long>;
constexpr long long INF = 1000000;
using H1 = expression_handle<int, 1>;
using H2 = expression_handle<int, 2>;

struct node
{
    std::string k, op;
    long long v = 0, w = 0, n = 0, m = 0, e = 0, t = 0;
    list_t s, d;
    std::vector<node> c;
    std::string json() const
    {
        auto L = [](const list_t& l)
        {
            std::string r = "[";
            for (size_t i = 0; i < l.size(); ++i)
                r += (i ? "," : "") + std::to_string(l[i]);
            return r + "]";
        };
        std::string r = "{\"k\":\"" + k + "\"";
        if (k == "ten")
            r += ",\"s\":" + L(s) + ",\"d\":" + L(d);
        else if (k == "sc")
            r += ",\"v\":" + std::to_string(v);
        else if (k == "cnt" || k == "lam")
            r += ",\"v\":" + std::to_string(v) + ",\"st\":" + L(s);
        else if (k == "seq")
            r += ",\"d\":" + L(d);
        else if (k == "lin")
            r += ",\"v\":" + std::to_string(v) + ",\"w\":" + std::to_string(w) + ",\"n\":" + std::to_string(n) +
                 ",\"e\":" + (e ? "true" : "false") + ",\"t\":" + (t ? "true" : "false");
        else if (k == "slice")
            r += ",\"st\":" + L(s) + ",\"n\":" + L(d);
        else if (k == "pad")
            r += ",\"v\":" + std::to_string(v);
        else if (k == "resh")
            r += ",\"s\":" + L(s);
        else if (k == "cat")
            r += ",\"ax\":" + std::to_string(v);
        else if (k == "f1" || k == "f2" || k == "f3")
            r += ",\"op\":\"" + op + "\"";
        for (size_t i = 0; i < c.size(); ++i)
            r += std::string(",\"") + "abc"[i] + "\":" + c[i].json();
        return r + "}";
    }
};
static node parse(vh::in_t& in)
{
    node t;
    t.k         = in.word();
    size_t kids = 1;
    if (t.k == "ten")
        t.m = in.i(), t.s = in.list(), t.d = in.list(), kids = 0;
    else if (t.k == "sc")
        t.v = in.i(), kids = 0;
    else if (t.k == "cnt" || t.k == "lam")
        t.v = in.i(), t.s = in.list(), kids = 0;
    else if (t.k == "seq")
        t.d = in.list(), kids = 0;
    else if (t.k == "lin")
        t.v = in.i(), t.w = in.i(), t.n = in.i(), t.e = in.i(), t.t = in.i(), kids = 0;
    else if (t.k == "slice")
        t.s = in.list(), t.d = in.list();
    else if (t.k == "pad")
        t.v = in.i();
    else if (t.k == "resh")
        t.s = in.list();
    else if (t.k == "cat")
        t.v = in.i(), kids = 2;
    else if (t.k == "f1")
        t.op = in.word();
    else if (t.k == "f2")
        t.op = in.word(), t.m = in.i(), kids = 2;
    else if (t.k == "f3")
        t.op = in.word(), kids = 3;
    for (size_t i = 0; i < kids; ++i)
        t.c.push_back(parse(in));
    return t;
}
static index_t ext(long long x) { return x == INF ? infinite_size : (index_t)x; }
static long long enc(index_t x) { return x == infinite_size ? INF : x > 1000000000ull ? vh::TOO_BIG : (long long)x; }
template <index_t D>
shape<D> mk(const list_t& v)
{
    shape<D> r;
    for (index_t i = 0; i < D; ++i)
        r[i] = ext(v[i]);
    return r;
}
template <index_t D>
list_t ls(const shape<D>& s)
{
    list_t r;
    for (index_t i = 0; i < D; ++i)
        r.push_back(enc(s[i]));
    return r;
}

struct op1
{
    int k;
    template <typename T>
    T operator()(const T& x) const
    {
        return k == 0 ? T(-x) : k == 1 ? T(abs(x)) : T(x * x);
    }
};
struct op2
{
    int k;
    template <typename A, typename B>
    auto operator()(const A& x, const B& y) const -> decltype(x + y)
    {
        switch (k)
        {
        case 0: return x + y;
        case 1: return x - y;
        case 2: return x * y;
        case 3: return min(x, y);
        default: return max(x, y);
        }
    }
};
struct op3
{
    int k;
    template <typename A, typename B, typename C>
    auto operator()(const A& x, const B& y, const C& z) const -> decltype(x + y + z)
    {
        return k == 0 ? x + y + z : k == 1 ? max(min(x, max(y, z)), min(y, z)) : x * y + z;
    }
};
static int opn(const std::string& o, std::initializer_list<const char*> l)
{
    int i = 0;
    for (const char* p : l)
    {
        if (o == p)
            return i;
        ++i;
    }
    std::exit(3);
}
static int opi(const node& t)
{
    return t.k == "f1"   ? opn(t.op, { "neg", "abs", "sqr" })
           : t.k == "f2" ? opn(t.op, { "add", "sub", "mul", "min", "max" })
                         : opn(t.op, { "add", "clamp", "fma" });
}

struct built
{
    int dims = 0;
    H1 h1;
    H2 h2;
    int v = 0;
};
static std::deque<std::shared_ptr<void>> pool; // owners of what is held by reference
template <typename T>
T& keep(T x)
{
    auto p = std::make_shared<T>(std::move(x));
    pool.push_back(p);
    return *p;
}
template <typename E>
built ret(E&& e)
{
    built b;
    constexpr index_t D = expression_dims<E>;
    b.dims              = D;
    if constexpr (D == 1)
        b.h1 = to_handle(std::move(e));
    else
        b.h2 = to_handle(std::move(e));
    return b;
}
static univector<int> uv(const node& t)
{
    univector<int> u(t.d.size());
    for (size_t i = 0; i < u.size(); ++i)
        u[i] = (int)t.d[i];
    return u;
}
static tensor<int, 2> tn(const node& t)
{
    tensor<int, 2> u(mk<2>(t.s));
    for (size_t i = 0; i < t.d.size(); ++i)
        u.data()[i] = (int)t.d[i];
    return u;
}
static built build(const node& t);
// calls f with the child held by value, by reference or type erased
template <typename F>
built with(const node& t, F&& f)
{
    if (t.k == "ten" && t.m)
    {
        if (t.s.size() == 1)
            return t.m == 1 ? f(uv(t)) : f(keep(uv(t)));
        return t.m == 1 ? f(tn(t)) : f(keep(tn(t)));
    }
    built b = build(t);
    return b.dims == 1 ? f(std::move(b.h1)) : f(std::move(b.h2));
}
template <typename F>
built with1(const node& t, F&& f) // axis count 1 or 2, only by value and type erased
{
    if (t.k == "ten" && t.m)
        return t.s.size() == 1 ? f(uv(t)) : f(tn(t));
    built b = build(t);
    return b.dims == 1 ? f(std::move(b.h1)) : f(std::move(b.h2));
}
template <typename F>
built withh(const node& t, F&& f) // type erased only
{
    built b = build(t);
    return b.dims == 1 ? f(std::move(b.h1)) : f(std::move(b.h2));
}
template <typename Fn, typename... E>
auto fun(Fn fn, E&&... e)
{
    return expression_make_function<Fn, E...>{ std::move(fn), std::forward<E>(e)... };
}
static int rank(const node& t)
{
    if (t.k == "ten" || t.k == "cnt" || t.k == "lam" || t.k == "resh")
        return (int)t.s.size();
    if (t.k == "seq" || t.k == "lin")
        return 1;
    if (t.k == "sc")
        return 0;
    if (t.k == "dim2")
        return 2;
    int r = 0;
    for (auto& c : t.c)
        r = std::max(r, rank(c));
    return r;
}

static built build(const node& t)
{
    built b;
    if (t.k == "ten")
        return t.s.size() == 1 ? ret(uv(t)) : ret(tn(t));
    if (t.k == "sc")
    {
        b.v = (int)t.v;
        return b;
    }
    if (t.k == "cnt")
        return t.s.size() == 1 ? ret(counter<int>((int)t.v, (int)t.s[0])) : ret(counter<int>((int)t.v, (int)t.s[0], (int)t.s[1]));
    if (t.k == "lam")
    {
        int v = (int)t.v, p = (int)t.s[0];
        if (t.s.size() == 1)
            return t.v % 2 ? ret(lambda<int>([=](index_t i) { return v + p * (int)i; })) : ret(lambda<int>([=](shape<1> i) { return v + p * (int)i[0]; }));
        int q = (int)t.s[1];
        return ret(lambda<int, 2>([=](shape<2> i) { return v + p * (int)i[0] + q * (int)i[1]; }));
    }
    if (t.k == "seq")
        return ret(sequence((int)t.d[0], (int)t.d[1], (int)t.d[2], (int)t.d[3], (int)t.d[4]));
    if (t.k == "lin")
    {
        if (t.t)
            return ret(cast<int>(linspace<double>((double)t.v, (double)t.w, (size_t)t.n, t.e != 0, ctrue)));
        return ret(cast<int>(linspace<double>((double)t.v, (double)t.w, (size_t)t.n, t.e != 0)));
    }
    if (t.k == "slice")
        return with(t.c[0],
                    [&](auto&& x)
                    {
                        constexpr index_t D = expression_dims<decltype(x)>;
                        return ret(slice(std::forward<decltype(x)>(x), mk<D>(t.s), mk<D>(t.d)));
                    });
    if (t.k == "pad")
        return with(t.c[0], [&](auto&& x) { return ret(padded(std::forward<decltype(x)>(x), (int)t.v)); });
    if (t.k == "rev")
    {
        const node& c = t.c[0];
        if (c.k == "ten" && c.m == 2)
            return c.s.size() == 1 ? ret(reverse(keep(uv(c)))) : ret(reverse(keep(tn(c))));
        if (c.k == "ten")
            return c.s.size() == 1 ? ret(reverse(uv(c))) : ret(reverse(tn(c)));
        if (c.k == "slice")
            return c.s.size() == 1 ? ret(reverse(slice(uv(c.c[0]), mk<1>(c.s), mk<1>(c.d))))
                                   : ret(reverse(slice(tn(c.c[0]), mk<2>(c.s), mk<2>(c.d))));
        if (c.k == "cat")
            return ret(reverse(concatenate(uv(c.c[0]), uv(c.c[1]))));
        return c.c[0].s.size() == 1 ? ret(reverse(reverse(uv(c.c[0])))) : ret(reverse(reverse(tn(c.c[0]))));
    }
    if (t.k == "cast")
        return with1(t.c[0], [&](auto&& x) { return ret(cast<int>(cast<double>(std::forward<decltype(x)>(x)))); });
    if (t.k == "resh")
        return with(t.c[0],
                    [&](auto&& x)
                    { return t.s.size() == 1 ? ret(reshape(std::forward<decltype(x)>(x), mk<1>(t.s))) : ret(reshape(std::forward<decltype(x)>(x), mk<2>(t.s))); });
    if (t.k == "dim2")
        return with(t.c[0],
                    [&](auto&& x) -> built
                    {
                        if constexpr (expression_dims<decltype(x)> == 1)
                            return ret(dimensions<2>(std::forward<decltype(x)>(x)));
                        else
                            std::exit(3);
                    });
    if (t.k == "adj")
        return with(t.c[0],
                    [&](auto&& x) -> built
                    {
                        if constexpr (expression_dims<decltype(x)> == 1)
                            return ret(adjacent(fn::sub(), std::forward<decltype(x)>(x)));
                        else
                            std::exit(3);
                    });
    if (t.k == "f1")
        return with(t.c[0], [&](auto&& x) { return ret(fun(op1{ opi(t) }, std::forward<decltype(x)>(x))); });
    if (t.k == "own")
        return withh(t.c[0], [&](auto&& x) { return ret(std::move(x)); });
    if (t.k == "ref")
        return withh(t.c[0],
                     [&](auto&& x)
                     {
                         auto& r = keep(std::move(x));
                         built b;
                         constexpr index_t D = expression_dims<decltype(x)>;
                         b.dims              = D;
                         if constexpr (D == 1)
                             b.h1 = to_handle(r);
                         else
                             b.h2 = to_handle(r);
                         return b;
                     });
    if (t.k == "ph")
        return withh(t.c[0],
                     [&](auto&& x)
                     {
                         constexpr index_t D = expression_dims<decltype(x)>;
                         auto p              = placeholder<int, D>();
                         if (!substitute(p, std::move(x)))
                             std::exit(4);
                         return ret(std::move(p));
                     });
    if (t.k == "f2")
    {
        op2 o{ opi(t) };
        const node &a = t.c[0], &c = t.c[1];
        int ra = rank(a), rc = rank(c);
        if (ra == 0)
            return withh(c, [&](auto&& y) { return ret(fun(o, scalar((int)a.v), std::move(y))); });
        if (rc == 0)
            return with1(a, [&](auto&& x) { return ret(fun(o, std::forward<decltype(x)>(x), scalar((int)c.v))); });
        if (t.m && ra == 1 && rc == 1)
        {
            // the second operand is substituted after the tree is built
            H1 x = build(a).h1, y = build(c).h1;
            if (t.m == 1)
                b = ret(fun(o, std::move(x), placeholder<int>()));
            else if (t.m == 2)
                b = ret(fun(o, keep(std::move(x)), placeholder<int>()));
            else
                b = ret(fun(o, std::move(x), to_handle(cast<int>(placeholder<int>()))));
            if (!b.h1.substitute(std::move(y)))
                std::exit(4);
            return b;
        }
        if (ra == rc)
            return with(a,
                        [&](auto&& x)
                        {
                            return with(c,
                                        [&](auto&& y) -> built
                                        {
                                            if constexpr (expression_dims<decltype(x)> == expression_dims<decltype(y)>)
                                                return ret(fun(o, std::forward<decltype(x)>(x), std::forward<decltype(y)>(y)));
                                            else
                                                std::exit(3);
                                        });
                        });
        built x = build(a), y = build(c);
        if (ra == 1)
            return ret(fun(o, std::move(x.h1), std::move(y.h2)));
        return ret(fun(o, std::move(x.h2), std::move(y.h1)));
    }
    if (t.k == "f3")
    {
        op3 o{ opi(t) };
        built x = build(t.c[0]), y = build(t.c[1]), z = build(t.c[2]);
        if (z.dims == 0)
            return ret(fun(o, std::move(x.h1), std::move(y.h1), scalar(z.v)));
        return ret(fun(o, std::move(x.h1), std::move(y.h1), std::move(z.h1)));
    }
    if (t.k == "cat")
        return with(t.c[0],
                    [&](auto&& x)
                    {
                        return with1(t.c[1],
                                     [&](auto&& y) -> built
                                     {
                                         constexpr index_t D = expression_dims<decltype(x)>;
                                         if constexpr (D == expression_dims<decltype(y)>)
                                         {
                                             if constexpr (expression_dims<decltype(y)> == 2)
                                             {
                                                 if (t.v == 2)
                                                     return ret(concatenate<1>(std::forward<decltype(x)>(x), std::forward<decltype(y)>(y)));
                                             }
                                             return ret(concatenate<0>(std::forward<decltype(x)>(x), std::forward<decltype(y)>(y)));
                                         }
                                         else
                                             std::exit(3);
                                     });
                    });
    std::fprintf(stderr, "bad node %s\n", t.k.c_str());
    std::exit(3);
}

template <index_t Axis, index_t D, typename Out, typename In>
shape<D> proc(size_t w, Out&& out, In& in, const shape<D>& st, const shape<D>& n)
{
    switch (w)
    {
    case 1: return process<1, Axis>(out, in, st, n);
    case 2: return process<2, Axis>(out, in, st, n);
    case 4: return process<4, Axis>(out, in, st, n);
    case 8: return process<8, Axis>(out, in, st, n);
    case 16: return process<16, Axis>(out, in, st, n);
    default: return process<0, Axis>(out, in, st, n);
    }
}
constexpr int GUARD = 0x5A5A5A5A, FILL = -77;
// memory around the destination
struct arena
{
    static constexpr size_t G = 64;
    std::vector<int> raw;
    int* base;
    arena(size_t n, size_t mis) : raw(n + 2 * G + 16 + mis, GUARD)
    {
        base = raw.data() + G;
        while ((size_t)base % 64)
            ++base;
        base += mis;
    }
};
template <index_t D>
bool finish(arena& a, const list_t& d, const std::vector<size_t>& strides, std::vector<int>& vals)
{
    std::vector<bool> mine(a.raw.size());
    size_t rows = D == 2 ? (size_t)d[0] : 1, cols = (size_t)d[D - 1];
    for (size_t r = 0; r < rows; ++r)
        for (size_t c = 0; c < cols; ++c)
        {
            int* p = a.base + (D == 2 ? r * strides[0] : 0) + c * strides[D - 1];
            vals.push_back(*p);
            mine[p - a.raw.data()] = true;
        }
    for (size_t i = 0; i < a.raw.size(); ++i)
        if (!mine[i] && a.raw[i] != GUARD)
            return false;
    return true;
}
template <index_t D>
void init(arena& a, const list_t& d, const std::vector<size_t>& strides)
{
    size_t rows = D == 2 ? (size_t)d[0] : 1, cols = (size_t)d[D - 1];
    for (size_t r = 0; r < rows; ++r)
        for (size_t c = 0; c < cols; ++c)
            a.base[(D == 2 ? r * strides[0] : 0) + c * strides[D - 1]] = FILL;
}

static void eval(vh::in_t& in)
{
    node t    = parse(in);
    size_t w  = (size_t)in.i();
    int ax    = (int)in.i();
    int dk    = (int)in.i();
    size_t ms = (size_t)in.i();
    list_t d = in.list(), st = in.list(), n = in.list();
    built b = build(t);
    rec r("E");
    r.key("t");
    r.s += t.json();
    r.list("d", d).list("st", st).list("n", n).i("w", (long long)w);
    std::vector<int> vals;
    bool ok = true;
    list_t rt;
    r.list("shape", b.dims == 1 ? ls(get_shape(b.h1)) : ls(get_shape(b.h2)));
    auto noop = memory_finalizer{};
    if (d.size() == 1)
    {
        size_t len    = (size_t)d[0];
        size_t stride = dk == 1 ? 2 : 1;
        arena a(len * stride, ms);
        init<1>(a, d, { stride });
        auto go = [&](auto&& out) { rt = ls(proc<0, 1>(w, out, b.h1, mk<1>(st), mk<1>(n))); };
        if (dk == 1)
            go(tensor<int, 1>(a.base, shape<1>(len), shape<1>(stride), noop));
        else if (dk == 2)
        {
            tensor<int, 1> whole(a.base - 3, shape<1>(len + 5), noop);
            go(slice(whole, shape<1>(3), shape<1>(len)));
        }
        else if (dk == 3)
        {
            auto u = make_univector(a.base, len);
            go(to_handle(u));
        }
        else if (dk == 4 && len > 0 && (len % 2 == 0 || len % 3 == 0))
        {
            size_t q = len % 3 == 0 ? 3 : 2;
            tensor<int, 2> m(a.base, shape<2>{ q, len / q }, noop);
            go(reshape(m, shape<1>(len)));
        }
        else
            go(make_univector(a.base, len));
        ok = finish<1>(a, d, { stride }, vals);
    }
    else
    {
        size_t R = (size_t)d[0], C = (size_t)d[1];
        std::vector<size_t> str{ C, 1 };
        if (dk == 1)
            str = { C + 3, 1 };
        if (dk == 2)
            str = { 1, R };
        arena a(R * str[0] + C * str[1], ms);
        init<2>(a, d, str);
        auto go = [&](auto&& out)
        {
            if (b.dims == 1)
                rt = ls(proc<1, 2>(w, out, b.h1, mk<2>(st), mk<2>(n)));
            else if (ax == 1)
                rt = ls(proc<0, 2>(w, out, b.h2, mk<2>(st), mk<2>(n)));
            else
                rt = ls(proc<1, 2>(w, out, b.h2, mk<2>(st), mk<2>(n)));
        };
        if (dk == 3)
        {
            tensor<int, 2> m(a.base, shape<2>{ R, C }, noop);
            go(to_handle(m));
        }
        else if (dk == 4)
        {
            auto u = make_univector(a.base, R * C);
            go(reshape(u, shape<2>{ R, C }));
        }
        else
            go(tensor<int, 2>(a.base, shape<2>{ R, C }, shape<2>{ str[0], str[1] }, noop));
        ok = finish<2>(a, d, str, vals);
    }
    r.list("ret", rt).list("out", vals).b("ok", ok);
    r.out();
}
template <index_t D, index_t Axis>
std::vector<int> getv(const expression_handle<int, D>& h, const shape<D>& ix, size_t w)
{
    std::vector<int> v;
    auto put = [&](auto x)
    {
        for (size_t i = 0; i < x.size(); ++i)
            v.push_back(x[i]);
    };
    switch (w)
    {
    case 1: put(get_elements(h, ix, axis_params_v<Axis, 1>)); break;
    case 2: put(get_elements(h, ix, axis_params_v<Axis, 2>)); break;
    case 4: put(get_elements(h, ix, axis_params_v<Axis, 4>)); break;
    case 8: put(get_elements(h, ix, axis_params_v<Axis, 8>)); break;
    case 16: put(get_elements(h, ix, axis_params_v<Axis, 16>)); break;
    default: put(get_elements(h, ix, axis_params_v<Axis, 32>)); break;
    }
    return v;
}
static void getat(vh::in_t& in)
{
    node t   = parse(in);
    size_t w = (size_t)in.i();
    int ax   = (int)in.i();
    list_t ix = in.list();
    built b = build(t);
    rec r("G");
    r.key("t");
    r.s += t.json();
    r.i("w", (long long)w).i("ax", ax).list("ix", ix);
    if (b.dims == 1)
        r.list("out", getv<1, 0>(b.h1, mk<1>(ix), w));
    else
        r.list("out", ax == 1 ? getv<2, 0>(b.h2, mk<2>(ix), w) : getv<2, 1>(b.h2, mk<2>(ix), w));
    r.out();
}
static void packed(vh::in_t& in)
{
    node t = parse(in), u = parse(in);
    size_t w = (size_t)in.i(), n = (size_t)in.i();
    H1 a = build(t).h1, b = build(u).h1;
    arena x(n, 0), y(n, 1);
    list_t d{ (long long)n };
    init<1>(x, d, { 1 });
    init<1>(y, d, { 1 });
    auto ux = make_univector(x.base, n), uy = make_univector(y.base, n);
    auto p = pack(a, b);
    auto o = unpack(ux, uy);
    switch (w)
    {
    case 1: process<1>(o, p); break;
    case 4: process<4>(o, p); break;
    case 8: process<8>(o, p); break;
    default: process(o, p);
    }
    std::vector<int> vx, vy;
    bool ok = finish<1>(x, d, { 1 }, vx);
    ok      = finish<1>(y, d, { 1 }, vy) && ok;
    rec r("P");
    r.key("t");
    r.s += t.json();
    r.key("u");
    r.s += u.json();
    r.i("n", (long long)n).list("x", vx).list("y", vy).b("ok", ok);
    r.out();
}
int main()
{
    vh::in_t in;
    while (in.line())
    {
        rec("init").out();
        for (long long k = in.i(); k > 0; --k)
        {
            std::string e = in.word();
            if (e == "E")
                eval(in);
            else if (e == "G")
                getat(in);
            else
                packed(in);
            pool.clear();
        }
    }
}
