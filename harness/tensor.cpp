// Tensors driven by scripts; see spec/Tensor.tla.  Script line: variant nops ops...
#include <kfr/base.hpp>
#include "vh.hpp"
#include <map>
#include <memory>
#include <utility>
using namespace kfr;
using vh::rec;

template <typename T>
struct session
{
    struct slot_t
    {
        std::unique_ptr<tensor<T, 1>> t1;
        std::unique_ptr<tensor<T, 2>> t2;
        std::unique_ptr<tensor<T, 3>> t3;
        void clear()
        {
            t1.reset();
            t2.reset();
            t3.reset();
        }
        auto& get(cval_t<index_t, 1>) { return t1; }
        auto& get(cval_t<index_t, 2>) { return t2; }
        auto& get(cval_t<index_t, 3>) { return t3; }
        bool live() const { return t1 || t2 || t3; }
    };
    struct storage_t
    {
        T* base;
        size_t n;
        std::weak_ptr<internal_generic::memory_finalizer_base> w;
        std::unique_ptr<vh::guarded<T>> ext;
        std::shared_ptr<int> calls;
        int freed() const { return calls ? *calls : w.expired() ? 1 : 0; }
    };
    slot_t slots[5];
    std::vector<storage_t> st;

    template <typename F>
    static void with(slot_t& s, F&& f)
    {
        if (s.t1)
            f(*s.t1);
        else if (s.t2)
            f(*s.t2);
        else if (s.t3)
            f(*s.t3);
    }
    template <index_t D>
    void put(int d, tensor<T, D> t)
    {
        auto p = std::make_unique<tensor<T, D>>(std::move(t));
        slots[d].clear();
        slots[d].get(cval_t<index_t, D>{}) = std::move(p);
    }
    template <index_t D>
    void fresh(const tensor<T, D>& t)
    {
        storage_t s;
        s.base = t.data();
        s.n    = t.size();
        s.w    = t.finalizer();
        st.push_back(std::move(s));
    }
    template <index_t D>
    static shape<D> mkshape(const std::vector<long long>& v, size_t off = 0)
    {
        shape<D> r;
        for (index_t i = 0; i < D; ++i)
            r[i] = (index_t)v[off + i];
        return r;
    }
    template <index_t D>
    void make(int d, int kind, const std::vector<long long>& sh, int base)
    {
        shape<D> s = mkshape<D>(sh);
        size_t n   = size_of_shape(s);
        if (kind == 0)
        {
            tensor<T, D> t(s);
            for (size_t i = 0; i < n; ++i)
                t.data()[i] = T(base + 1 + i);
            fresh(t);
            put(d, std::move(t));
        }
        else if (kind == 1)
        {
            tensor<T, D> t(s, T(base));
            fresh(t);
            put(d, std::move(t));
        }
        else if (kind == 2)
        {
            storage_t r;
            r.ext   = std::make_unique<vh::guarded<T>>(n);
            r.base  = r.ext->data();
            r.n     = n;
            r.calls = std::make_shared<int>(0);
            for (size_t i = 0; i < n; ++i)
                r.base[i] = T(base + 1 + i);
            auto calls = r.calls;
            tensor<T, D> t(r.base, s, make_memory_finalizer([calls]() { ++*calls; }));
            r.w = t.finalizer();
            st.push_back(std::move(r));
            put(d, std::move(t));
        }
        else if (kind == 3)
        {
            if constexpr (D == 1)
            {
                std::vector<T> v(n);
                for (size_t i = 0; i < n; ++i)
                    v[i] = T(base + 1 + i);
                tensor<T, 1> t = tensor_from_container(std::move(v));
                fresh(t);
                put(d, std::move(t));
            }
        }
        else
        {
            tensor<T, D> t(s, internal_generic::strides_for_shape<D, true>(s));
            T x = T(base + 1);
            for (auto it = t.begin(); it != t.end(); ++it)
                *it = x++;
            fresh(t);
            put(d, std::move(t));
        }
    }
    struct item
    {
        long long a[7];
    };
    template <index_t D, typename... Idx>
    void slice(int d, const tensor<T, D>& t, const std::vector<item>& its, const Idx&... idx)
    {
        constexpr size_t m = sizeof...(Idx);
        if (its.size() == m)
        {
            if constexpr (m > 0)
                if constexpr ((std::is_same_v<Idx, tensor_range> || ...) || m < D)
                    put(d, t(idx...));
        }
        else if constexpr (m < D)
        {
            const item& it = its[m];
            if (it.a[0] == 0)
                slice(d, t, its, idx..., (int)it.a[1]);
            else
            {
                auto opt = [](long long has, long long v) { return has ? opt_index_t(v) : opt_index_t(); };
                slice(d, t, its, idx..., trange(opt(it.a[1], it.a[2]), opt(it.a[3], it.a[4]), opt(it.a[5], it.a[6])));
            }
        }
    }
    // ---- recording ----
    int stof(const memory_finalizer& f) const
    {
        for (size_t i = 0; i < st.size(); ++i)
            if (auto p = st[i].w.lock())
                if (p == f)
                    return (int)i + 1;
        return 0;
    }
    template <index_t D>
    void describe(rec& r, const tensor<T, D>& t)
    {
        int id = stof(t.finalizer());
        r.i("st", id).list("shape", t.shape().template to_std_array<long long>()).i("size", (long long)t.size());
        const T* base = id ? st[id - 1].base : nullptr;
        std::vector<long long> cells, iter;
        size_t n = size_of_shape(t.shape());
        auto sh  = t.shape();
        for (size_t k = 0; k < n; ++k)
        {
            size_t rest = k;
            shape<D> ix;
            for (index_t i = D; i-- > 0;)
            {
                ix[i] = rest % sh[i];
                rest /= sh[i];
            }
            const T* p;
            if constexpr (D == 1)
                p = &t(ix[0]);
            else if constexpr (D == 2)
                p = &t(ix[0], ix[1]);
            else
                p = &t(ix[0], ix[1], ix[2]);
            cells.push_back(p - base + 1);
        }
        for (auto it = t.begin(); it != t.end(); ++it)
            iter.push_back(&*it - base + 1);
        r.list("cells", cells).list("iter", iter);
        // through the expression interface (vector reads)
        vh::guarded<T> g(n);
        tensor<T, D> out(g.data(), sh, nullptr);
        if (n)
        {
            for (long long c : cells)
                if (c < 1 || c > (long long)st[id - 1].n)
                {
                    r.list("vals", std::vector<int>{});
                    return;
                }
            process(out, t);
        }
        r.nums("vals", g.data(), n);
        guards = guards && g.check();
    }
    bool guards = true;
    void finish(rec& r, int d)
    {
        slot_t& s = slots[d];
        if (s.live())
            with(s, [&](auto& t) { describe(r, t); });
        else
            r.i("st", 0);
        std::vector<int> fr;
        r.key("mem");
        r.s += "[";
        for (size_t i = 0; i < st.size(); ++i)
        {
            fr.push_back(st[i].freed());
            if (i)
                r.s += ",";
            r.s += "[";
            if (!st[i].freed())
                for (size_t k = 0; k < st[i].n; ++k)
                    r.s += (k ? "," : "") + std::to_string(vh::num(st[i].base[k]));
            r.s += "]";
            if (st[i].ext)
                guards = guards && st[i].ext->check();
        }
        r.s += "]";
        r.list("freed", fr).b("guards", guards);
        r.out();
    }
    static std::vector<long long> take(vh::in_t& in, size_t n)
    {
        std::vector<long long> v(n);
        for (auto& x : v)
            x = in.i();
        return v;
    }
    size_t dims(int s)
    {
        size_t r = 0;
        with(slots[s], [&](auto& t) { r = t.shape().size(); });
        return r;
    }
    static std::string js(const std::vector<long long>& v)
    {
        std::string s = "[";
        for (size_t i = 0; i < v.size(); ++i)
            s += (i ? "," : "") + std::to_string(v[i]);
        return s + "]";
    }

    void run(vh::in_t& in)
    {
        rec("init").out();
        int nops = (int)in.i();
        while (nops--)
        {
            std::string op = in.word();
            int d          = (int)in.i();
            rec r(op.c_str());
            bool ok = true;
            if (op == "N")
            {
                int kind = (int)in.i();
                auto sh  = take(in, (size_t)in.i());
                int base = (int)in.i();
                r.i("d", d).i("kind", kind).list("sh", sh).i("base", base);
                if (sh.size() == 1)
                    make<1>(d, kind, sh, base);
                else if (sh.size() == 2)
                    make<2>(d, kind, sh, base);
                else
                    make<3>(d, kind, sh, base);
            }
            else if (op == "S")
            {
                int s = (int)in.i();
                std::vector<item> its((size_t)in.i());
                r.i("d", d).i("s", s);
                r.key("its");
                r.s += "[";
                bool f = true;
                for (auto& it : its)
                {
                    it.a[0] = in.i();
                    auto v  = take(in, it.a[0] ? 6 : 1);
                    std::copy(v.begin(), v.end(), it.a + 1);
                    v.insert(v.begin(), it.a[0]);
                    r.s += (f ? "" : ",") + js(v);
                    f = false;
                }
                r.s += "]";
                slot_t src;
                copyslot(src, slots[s]);
                slots[d].clear();
                with(src, [&](auto& t) { slice(d, t, its); });
            }
            else if (op == "U")
            {
                int s  = (int)in.i();
                auto a = take(in, dims(s)), b = take(in, dims(s));
                r.i("d", d).i("s", s).list("a", a).list("b", b);
                with(slots[s], [&](auto& t)
                     {
                         constexpr index_t D = std::decay_t<decltype(t)>::dims;
                         put(d, t(mkshape<D>(a), mkshape<D>(b)));
                     });
            }
            else if (op == "T")
            {
                int s = (int)in.i();
                r.i("d", d).i("s", s);
                with(slots[s], [&](auto& t) { put(d, t.transpose()); });
            }
            else if (op == "R")
            {
                int s = (int)in.i(), al = (int)in.i();
                auto sh = take(in, (size_t)in.i());
                r.i("d", d).i("s", s).i("al", al).list("sh", sh);
                bool shared = false;
                try
                {
                    with(slots[s], [&](auto& t)
                         {
                             memory_finalizer old = t.finalizer();
                             auto done            = [&](auto u)
                             {
                                 shared = u.finalizer() == old;
                                 if (!shared)
                                     fresh(u);
                                 put(d, std::move(u));
                             };
                             if (sh.size() == 1)
                                 done(sh[0] == (long long)t.size() && (d & 1) ? (al ? t.flatten_may_copy() : t.flatten()) : al ? t.reshape_may_copy(mkshape<1>(sh)) : t.reshape(mkshape<1>(sh)));
                             else if (sh.size() == 2)
                                 done(al ? t.reshape_may_copy(mkshape<2>(sh)) : t.reshape(mkshape<2>(sh)));
                             else
                                 done(al ? t.reshape_may_copy(mkshape<3>(sh)) : t.reshape(mkshape<3>(sh)));
                         });
                }
                catch (const std::exception&)
                {
                    ok = false;
                }
                r.b("ok", ok).b("shared", shared);
            }
            else if (op == "C")
            {
                int s = (int)in.i();
                r.i("d", d).i("s", s);
                with(slots[s], [&](auto& t)
                     {
                         auto u = t.copy();
                         fresh(u);
                         put(d, std::move(u));
                     });
            }
            else if (op == "P")
            {
                int s = (int)in.i(), k = (int)in.i(), w = (int)in.i();
                r.i("d", d).i("s", s).i("k", k);
                with(slots[s], [&](auto& t)
                     {
                         if (w == 0)
                         {
                             auto u = t.map([k](T x) -> T { return x + T(k); });
                             fresh(u);
                             put(d, std::move(u));
                         }
                         else
                         {
                             auto u = trender(t + scalar(T(k)));
                             fresh(u);
                             put(d, std::move(u));
                         }
                     });
            }
            else if (op == "Z")
            {
                int a = (int)in.i(), b = (int)in.i(), w = (int)in.i();
                r.i("d", d).i("a", a).i("b", b);
                with(slots[a], [&](auto& x)
                     {
                         constexpr index_t D = std::decay_t<decltype(x)>::dims;
                         auto& y             = *slots[b].get(cval_t<index_t, D>{});
                         if (w == 0)
                         {
                             auto u = x.binary(y, [](T p, T q) -> T { return p - q; });
                             fresh(u);
                             put(d, std::move(u));
                         }
                         else
                         {
                             tensor<T, D> u = x - y;
                             fresh(u);
                             put(d, std::move(u));
                         }
                     });
            }
            else if (op == "A" || op == "M")
            {
                int s = (int)in.i();
                r.i("d", d).i("s", s);
                with(slots[s], [&](auto& t)
                     {
                         constexpr index_t D = std::decay_t<decltype(t)>::dims;
                         auto& p             = slots[d].get(cval_t<index_t, D>{});
                         if (op == "A")
                         {
                             if (!p)
                                 put(d, t);
                             else if ((d + s) & 1)
                                 *p = t;
                             else
                                 *p = std::as_const(t);
                         }
                         else if (!p)
                             put(d, std::move(t));
                         else
                             *p = std::move(t);
                     });
                if (op == "M")
                    slots[s].clear();
            }
            else if (op == "D")
            {
                r.i("d", d);
                slots[d].clear();
            }
            else if (op == "X")
            {
                int s = (int)in.i(), i = (int)in.i();
                r.i("d", d).i("s", s).i("i", i);
                with(slots[s], [&](auto& t)
                     {
                         constexpr index_t D = std::decay_t<decltype(t)>::dims;
                         if constexpr (D > 1)
                         {
                             auto it = t.nested_begin();
                             int k   = i;
                             while (k--)
                                 ++it;
                             put(d, *it);
                         }
                     });
            }
            else if (op == "W")
            {
                auto ix = take(in, dims(d));
                T x     = T(in.i());
                r.i("d", d).list("ix", ix).i("x", (long long)x);
                with(slots[d], [&](auto& t)
                     {
                         constexpr index_t D = std::decay_t<decltype(t)>::dims;
                         if constexpr (D == 1)
                             t(ix[0]) = x;
                         else if constexpr (D == 2)
                             t(ix[0], ix[1]) = x;
                         else
                             t(ix[0], ix[1], ix[2]) = x;
                     });
            }
            else if (op == "L")
            {
                T x = T(in.i());
                r.i("d", d).i("x", (long long)x);
                with(slots[d], [&](auto& t) { std::as_const(t) = x; });
            }
            else if (op == "I")
            {
                r.i("d", d);
                with(slots[d], [&](auto& t) { t.unary_inplace([](T x) -> T { return -x; }); });
            }
            else if (op == "V")
            {
                int s = (int)in.i(), w = (int)in.i();
                r.i("d", d).i("s", s);
                try
                {
                    with(slots[d], [&](auto& t)
                         {
                             constexpr index_t D = std::decay_t<decltype(t)>::dims;
                             auto& y             = *slots[s].get(cval_t<index_t, D>{});
                             if (w == 0)
                                 std::as_const(t) = std::as_const(y);
                             else
                                 t.copy_from(y);
                         });
                }
                catch (const std::exception&)
                {
                    ok = false;
                }
                r.b("ok", ok);
            }
            else if (op == "E")
            {
                int a = (int)in.i(), b = (int)in.i();
                r.i("d", d).i("a", a).i("b", b);
                with(slots[d], [&](auto& t)
                     {
                         with(slots[a], [&](auto& x)
                              {
                                  with(slots[b], [&](auto& y)
                                       {
                                           constexpr index_t D = std::decay_t<decltype(t)>::dims;
                                           constexpr index_t A = std::decay_t<decltype(x)>::dims;
                                           constexpr index_t B = std::decay_t<decltype(y)>::dims;
                                           if constexpr ((A > B ? A : B) == D)
                                               t = x + y;
                                       });
                              });
                     });
            }
            else if (op == "Q")
            {
                int a = d, b = (int)in.i();
                r.i("a", a).i("b", b);
                std::vector<std::vector<long long>> visited;
                with(slots[a], [&](auto& x)
                     {
                         constexpr index_t D = std::decay_t<decltype(x)>::dims;
                         auto& y             = *slots[b].get(cval_t<index_t, D>{});
                         r.b("eq", std::as_const(x) == std::as_const(y));
                         r.i("sum", vh::num(x.reduce([](T p, T q) -> T { return p + q; })));
                         x.iterate([&](T&, const shape<D>& ix)
                                   { visited.push_back(std::vector<long long>(ix.begin(), ix.end())); });
                     });
                r.key("visited");
                r.s += "[";
                for (size_t i = 0; i < visited.size(); ++i)
                    r.s += (i ? "," : "") + js(visited[i]);
                r.s += "]";
                r.out();
                continue;
            }
            finish(r, d);
        }
        for (auto& s : slots)
            s.clear();
    }
    void copyslot(slot_t& to, slot_t& from)
    {
        with(from, [&](auto& t)
             {
                 constexpr index_t D           = std::decay_t<decltype(t)>::dims;
                 to.get(cval_t<index_t, D>{}) = std::make_unique<tensor<T, D>>(t);
             });
    }
};

int main()
{
    vh::in_t in;
    while (in.line())
    {
        switch (in.i())
        {
        case 0:
            session<float>().run(in);
            break;
        case 1:
            session<double>().run(in);
            break;
        case 2:
            session<int>().run(in);
            break;
        default:
            session<long long>().run(in);
        }
    }
}
