// Shape algebra, index walks and broadcast evaluation; see spec/Shape.tla.  Script line: nops ops...
#include <kfr/base.hpp>
#include "vh.hpp"
#include <utility>
using namespace kfr;
using vh::rec;
using list_t = std::vector<long long>;
constexpr long long INF = 1000000;

static index_t ext(long long x) { return x == INF ? infinite_size : (index_t)x; }
static long long enc(index_t x) { return x == infinite_size ? INF : x > 1000000000ull ? vh::TOO_BIG : (long long)x; }
template <index_t D>
shape<D> mk(const list_t& v)
{
    shape<D> r;
    if constexpr (D > 0)
        for (index_t i = 0; i < D; ++i)
            r[i] = ext(v[i]);
    return r;
}
template <index_t D>
list_t ls(const shape<D>& s)
{
    list_t r;
    if constexpr (D > 0)
        for (index_t i = 0; i < D; ++i)
            r.push_back(enc(s[i]));
    return r;
}
static list_t lsd(const shape<dynamic_shape>& s)
{
    list_t r;
    for (index_t x : s)
        r.push_back(enc(x));
    return r;
}
template <index_t Max, typename F>
void rank(size_t n, F&& f)
{
    if constexpr (Max > 0)
    {
        if (n < Max)
            return rank<Max - 1>(n, std::forward<F>(f));
    }
    f(cval_t<index_t, Max>{});
}
static void nested(rec& r, const char* k, const std::vector<list_t>& v)
{
    r.key(k);
    r.s += "[";
    for (size_t i = 0; i < v.size(); ++i)
    {
        r.s += i ? ",[" : "[";
        for (size_t j = 0; j < v[i].size(); ++j)
            r.s += (j ? "," : "") + std::to_string(v[i][j]);
        r.s += "]";
    }
    r.s += "]";
}

static void pairs(const list_t& a, const list_t& b)
{
    rec r("P");
    r.list("a", a).list("b", b);
    rank<4>(a.size(), [&](auto da) {
        rank<4>(b.size(), [&](auto db) {
            constexpr index_t A = val_of(decltype(da)()), B = val_of(decltype(db)());
            auto x = mk<A>(a);
            auto y = mk<B>(b);
            r.list("ab", ls(internal_generic::common_shape(x, y))).list("ba", ls(internal_generic::common_shape(y, x)));
            r.b("can", internal_generic::can_assign_from(x, y)).b("canb", internal_generic::can_assign_from(y, x));
            if constexpr (A > 0 && B > 0)
                r.b("same", internal_generic::same_layout(x, y));
            else
                r.b("same", internal_generic::same_layout(mk<A + 1>([&] { list_t t = a; t.push_back(1); return t; }()),
                                                          mk<B + 1>([&] { list_t t = b; t.push_back(1); return t; }())));
            if constexpr (A == B && (A > 0))
            {
                shape<B> x = mk<B>(a), m = x;
                for (index_t i = 0; i < B; ++i)
                    m[i] = std::max(x[i], y[i]);
                r.list("add", ls(add_shape(x, y))).list("min", ls<B>(min(x, y))).b("ge", x.ge(y)).b("le", x.le(y));
                r.list("addu", ls(add_shape_undef(x, y))).list("sub", ls(sub_shape(m, y))).list("subu", ls(sub_shape_undef(m, y)));
            }
        });
    });
    r.out();
}
static void triple(const list_t& a, const list_t& b, const list_t& c)
{
    rec r("T");
    r.list("a", a).list("b", b).list("c", c);
    using internal_generic::common_shape;
    rank<3>(a.size(), [&](auto da) {
        rank<3>(b.size(), [&](auto db) {
            rank<3>(c.size(), [&](auto dc) {
                auto x = mk<val_of(decltype(da)())>(a);
                auto y = mk<val_of(decltype(db)())>(b);
                auto z = mk<val_of(decltype(dc)())>(c);
                r.list("left", ls(common_shape(common_shape(x, y), z)));
                r.list("right", ls(common_shape(x, common_shape(y, z))));
                r.list("all", ls(common_shape(x, y, z)));
            });
        });
    });
    r.out();
}
static void single(const list_t& s, long long u)
{
    rec r("S");
    r.list("s", s).i("u", u);
    rank<5>(s.size(), [&](auto d) {
        constexpr index_t D = val_of(decltype(d)());
        if constexpr (D > 0)
        {
            auto x = mk<D>(s);
            shape<dynamic_shape> y(x);
            r.i("product", enc(x.product())).i("size", enc(size_of_shape(x))).i("dprod", enc(y.product()));
            auto c = internal_generic::strides_for_shape(x, (index_t)u);
            r.list("c", ls(c)).list("f", ls(internal_generic::strides_for_shape<D, true>(x, (index_t)u)));
            r.list("t", ls<D>(x.transpose())).list("rl", ls<D>(x.rotate_left())).list("rr", ls<D>(x.rotate_right()));
            r.list("drl", lsd(y.rotate_left())).list("drr", lsd(y.rotate_right()));
            r.list("rb", ls<D - 1>(x.remove_back())).list("rf", ls<D - 1>(x.remove_front()));
            r.list("drb", lsd(y.remove_back())).list("drf", lsd(y.remove_front()));
            r.i("tz", (long long)x.trailing_zeros()).b("inf", x.has_infinity());
            list_t mask;
            dimset ds = x.tomask();
            for (index_t i = 0; i < maximum_dims; ++i)
                mask.push_back(ds[i]);
            r.list("mask", mask).list("ext", ls(x.template extend<D + 2>()));
            std::vector<list_t> tr;
            tr.push_back({});
            if constexpr (D >= 1) tr.push_back(ls<1>(x.template trim<1>()));
            if constexpr (D >= 2) tr.push_back(ls<2>(x.template trim<2>()));
            if constexpr (D >= 3) tr.push_back(ls<3>(x.template trim<3>()));
            if constexpr (D >= 4) tr.push_back(ls<4>(x.template trim<4>()));
            if constexpr (D >= 5) tr.push_back(ls<5>(x.template trim<5>()));
            nested(r, "trim", tr);
            r.list("addlast", ls(x.add((index_t)u))).i("dot", enc(x.dot(c))).i("sum", enc(x.sum()));
        }
    });
    r.out();
}
static void flat(const list_t& s)
{
    rec r("F");
    r.list("s", s);
    rank<5>(s.size(), [&](auto d) {
        constexpr index_t D = val_of(decltype(d)());
        if constexpr (D > 0)
        {
            auto x = mk<D>(s);
            std::vector<list_t> idx;
            list_t fl;
            for (size_t k = 0, n = size_of_shape(x); k < n; ++k)
            {
                shape<D> ix = x.from_flat(k);
                idx.push_back(ls<D>(ix));
                fl.push_back((long long)x.to_flat(ix));
            }
            nested(r, "idx", idx);
            r.list("flat", fl);
        }
    });
    r.out();
}
static void iter(const list_t& a, const list_t& b, long long dim)
{
    rec r("I");
    r.list("start", a).list("stop", b).i("dim", dim);
    rank<4>(a.size(), [&](auto d) {
        constexpr index_t D = val_of(decltype(d)());
        if constexpr (D > 0)
        {
            auto s = mk<D>(a), e = mk<D>(b);
            shape<D> ix = s;
            std::vector<list_t> walk;
            list_t cmp;
            bool null = true;
            for (size_t guard = 0; guard < 1000; ++guard)
            {
                walk.push_back(ls<D>(ix));
                cmp.push_back(internal_generic::compare_indices(ix, e, (index_t)dim));
                shape<D> nx = internal_generic::increment_indices_return(ix, s, e, (index_t)dim);
                bool more   = internal_generic::increment_indices(ix, s, e, (index_t)dim);
                null = null && (more ? nx == ix : nx == shape<D>(internal_generic::null_index));
                if (!more)
                    break;
            }
            nested(r, "walk", walk);
            r.s += ",\"cmp\":[";
            for (size_t i = 0; i < cmp.size(); ++i)
                r.s += i ? (cmp[i] ? ",true" : ",false") : (cmp[i] ? "true" : "false");
            r.s += "]";
            r.b("null", null);
        }
    });
    r.out();
}
template <index_t D>
tensor<int, D> ramp(const list_t& s, int unit)
{
    tensor<int, D> t(mk<D>(s));
    for (size_t i = 0; i < t.size(); ++i)
        t.data()[i] = unit * int(1 + i);
    return t;
}
static void eval(const list_t& a, const list_t& b, const list_t& c, long long fl)
{
    rec r("E");
    r.list("a", a).list("b", b).list("c", c).i("scalar", fl & 1 ? 7000000 : 0).b("count", fl & 2);
    rank<5>(a.size(), [&](auto da) {
        rank<5>(b.size(), [&](auto db) {
            constexpr index_t A = val_of(decltype(da)()), B = val_of(decltype(db)());
            // the higher ranks with fewer combinations
            if constexpr (A > 0 && B > 0 && (A <= 3 ? B <= 3 : B <= 2 || B == A))
            {
                const auto x = ramp<A>(a, 1);
                const auto y = ramp<B>(b, 100);
                const auto z = ramp<1>(c, 10000);
                constexpr index_t D = A > B ? A : B;
                auto show = [&](auto&& e) {
                    shape<D> sh = get_shape(e);
                    r.list("shape", ls<D>(sh));
                    vh::guarded<int> g(size_of_shape(sh));
                    tensor<int, D> out(g.data(), sh, memory_finalizer{});
                    out = e;
                    r.nums("vals", g.data(), g.n);
                    if (!g.check())
                        r.s = "{\"ev\":\"guard\"";
                };
                if constexpr (A > 3)
                {
                    fl == 3 ? show((x + scalar(7000000)) + y + (counter(0) + z)) : show(x + y + z);
                    return;
                }
                else
                switch (fl)
                {
                case 0: show(x + y + z); break;
                case 1: show(x + (y + 7000000) + z); break;
                case 2: show(x + y + (counter(0) + z)); break;
                default: show((x + scalar(7000000)) + y + (counter(0) + z));
                }
            }
        });
    });
    r.out();
}

int main()
{
    vh::in_t in;
    while (in.line())
    {
        rec("init").out();
        long long n = in.i();
        for (long long k = 0; k < n; ++k)
        {
            std::string op = in.word();
            list_t a = in.list();
            if (op == "P")
                pairs(a, in.list());
            else if (op == "T")
            {
                list_t b = in.list(), c = in.list();
                triple(a, b, c);
            }
            else if (op == "S")
                single(a, in.i());
            else if (op == "F")
                flat(a);
            else if (op == "I")
            {
                list_t b = in.list();
                iter(a, b, in.i());
            }
            else
            {
                list_t b = in.list(), c = in.list();
                eval(a, b, c, in.i());
            }
        }
    }
}
