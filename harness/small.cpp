// Small containers and fractions; see spec/Small.tla.  Script line: type capacity nops ops...
#include <kfr/base.hpp>
#include <kfr/base/inline_vector.hpp>
#include <kfr/base/small_buffer.hpp>
#include <map>
#include <set>
#include "vh.hpp"
using namespace kfr;
using vh::rec;

extern "C" void* __real_malloc(size_t);
extern "C" void __real_free(void*);
static bool watching = false;
static long blocks   = 0;
extern "C" void* __wrap_malloc(size_t n)
{
    blocks += watching;
    return __real_malloc(n);
}
extern "C" void __wrap_free(void* p)
{
    blocks -= watching && p;
    __real_free(p);
}

// an element with a life: its address is known while it exists
struct elem
{
    static std::set<const void*> alive;
    static long bad;
    int x;
    void born() { bad += !alive.insert(this).second; }
    static void check(const elem& e) { bad += !alive.count(&e); }
    elem() : x(0) { born(); }
    elem(int x) : x(x) { born(); }
    elem(const elem& o) : x(o.x) { check(o), born(); }
    elem(elem&& o) : x(o.x) { check(o), born(); o.x = -7; }
    elem& operator=(const elem& o)
    {
        check(*this), check(o);
        x = o.x;
        return *this;
    }
    elem& operator=(elem&& o)
    {
        check(*this), check(o);
        int y = o.x;
        o.x   = -7;
        x     = y;
        return *this;
    }
    ~elem() { bad += alive.erase(this) != 1; }
};
std::set<const void*> elem::alive;
long elem::bad = 0;
static int val(int x) { return x; }
static int val(const elem& e)
{
    elem::check(e);
    return elem::alive.count(&e) ? e.x : -99;
}

template <typename C, bool inl>
struct runner
{
    std::map<int, std::unique_ptr<C>> m;
    int cap;
    static int clean(int x) { return x < -1000 || x > 1000 ? -1000 : x; } // elements nobody has written
    void show(rec& r)
    {
        std::vector<long long> ids;
        std::string all = "[";
        bool views      = true;
        for (auto& [id, c] : m)
        {
            ids.push_back(id);
            const C& k = *c;
            if (all.size() > 1)
                all += ",";
            all += "[";
            size_t i = 0;
            for (auto& e : *c)
            {
                if constexpr (!inl)
                    views = views && k.size() < 100000;
                if (i)
                    all += ",";
                all += std::to_string(clean(val(e)));
                views = views && &k[i] == &e && &(*c)[i] == &e && k.data() + i == &e && c->data() + i == &e && k.begin() + i == &e && k.cbegin() + i == &e;
                ++i;
            }
            all += "]";
            views = views && i == k.size() && k.end() - k.begin() == (long)i && k.cend() == k.end() && c->end() == k.end() && k.empty() == (i == 0);
        }
        r.list("ids", ids);
        r.key("all");
        r.s += all + "]";
        r.i("bad", elem::bad).b("views", views).out();
    }
    template <typename Fn>
    static bool threw(Fn&& fn)
    {
        try
        {
            fn();
            return false;
        }
        catch (std::exception&)
        {
            return true;
        }
    }
    // unspecified elements get a value, so that they can be compared later
    void settle(C& c, size_t from)
    {
        for (size_t i = from; i < c.size(); ++i)
            if (clean(val(c[i])) == -1000)
                c[i] = 0;
    }
    void run(vh::in_t& in, int cap_)
    {
        cap = inl ? cap_ : 1000000;
        elem::bad = 0;
        blocks = 0, watching = true;
        rec("init").out();
        for (size_t nops = in.i(); nops--;)
        {
            std::string o = in.word();
            rec r(o.c_str());
            if (o == "make")
            {
                int id          = in.i();
                std::string how = in.word();
                size_t n        = in.i();
                std::vector<long long> list;
                bool t = false;
                if constexpr (inl)
                {
                    using T = typename C::value_type;
                    if (how == "size")
                        t = threw([&] { m[id] = std::make_unique<C>(n); });
                    else if (how == "value")
                    {
                        T x = in.i();
                        list.assign(n, x);
                        t = threw([&] { m[id] = std::make_unique<C>(n, x); });
                    }
                    else
                    {
                        std::vector<T> l;
                        for (size_t i = 0; i < n; ++i)
                            l.push_back(in.i());
                        list.assign(l.begin(), l.end());
                        t = threw([&] {
                            if (n == 3)
                                m[id] = std::make_unique<C>(std::initializer_list<T>{ l[0], l[1], l[2] });
                            else
                                m[id] = std::make_unique<C>(l.begin(), l.end());
                        });
                    }
                    if (t)
                        m.erase(id);
                }
                else
                {
                    m[id] = n ? std::make_unique<C>(n) : std::make_unique<C>();
                }
                if (how == "size" && m.count(id))
                    settle(*m[id], 0);
                r.i("id", id).str("how", how).i("n", n).list("list", list).i("cap", cap).b("threw", t);
            }
            else if (o == "copy")
            {
                int dst = in.i(), src = in.i(), how = in.i();
                if (!m.count(dst))
                {
                    const C& s = *m[src];
                    m[dst]     = std::make_unique<C>(s);
                }
                else
                {
                    if constexpr (!inl)
                    {
                        if (how && dst != src)
                            m[dst]->assign(*m[src]);
                        else
                            *m[dst] = *m[src];
                    }
                    else
                        *m[dst] = *m[src];
                }
                r.i("dst", dst).i("src", src);
            }
            else if (o == "move")
            {
                int dst = in.i(), src = in.i();
                if (!m.count(dst))
                    m[dst] = std::make_unique<C>(std::move(*m[src]));
                else
                    *m[dst] = std::move(*m[src]);
                r.i("dst", dst).i("src", src);
            }
            else if (o == "swap")
            {
                int dst = in.i(), src = in.i();
                using std::swap;
                swap(*m[dst], *m[src]);
                r.i("dst", dst).i("src", src);
            }
            else if (o == "push")
            {
                int id = in.i(), x = in.i();
                bool t = threw([&] { m[id]->push_back(x); });
                r.i("id", id).i("x", x).i("cap", cap).b("threw", t);
            }
            else if (o == "pushown")
            {
                int id = in.i(), i = in.i();
                m[id]->push_back((*m[id])[i - 1]);
                r.i("id", id).i("i", i);
            }
            else if (o == "pop" || o == "resize")
            {
                int id = in.i();
                r.i("id", id);
                if constexpr (!inl)
                {
                    if (o == "pop")
                        m[id]->pop_back();
                    else
                    {
                        size_t n = in.i(), old = m[id]->size();
                        n || old % 2 ? m[id]->resize(n) : m[id]->clear();
                        settle(*m[id], old);
                        r.i("n", n);
                    }
                }
            }
            else if (o == "write")
            {
                int id = in.i(), i = in.i(), x = in.i(), how = in.i();
                C& c = *m[id];
                if (how == 1 && i == 1)
                    c.front() = x;
                else if (how == 1 && (size_t)i == c.size())
                    c.back() = x;
                else if (how == 2)
                    *(c.begin() + i - 1) = x;
                else
                    c[i - 1] = x;
                r.i("id", id).i("i", i).i("x", x);
            }
            else if (o == "at")
            {
                int id = in.i(), i = in.i(), x = 0;
                bool t = false;
                if constexpr (inl)
                    t = threw([&] { x = m[id]->at(i - 1); const C& k = *m[id]; if (k.at(i - 1) != x) x = -5; });
                r.i("id", id).i("i", i).i("x", x).b("threw", t);
            }
            else if (o == "compare")
            {
                int a = in.i(), b = in.i();
                if constexpr (inl)
                    r.i("a", a).i("b", b).b("eq", *m[a] == *m[b]).b("ne", *m[a] != *m[b]);
            }
            else if (o == "ends")
            {
                int id     = in.i();
                const C& k = *m[id];
                bool same  = &k.front() == &m[id]->front() && &k.back() == &m[id]->back();
                r.i("id", id).i("front", same ? val(k.front()) : -5).i("back", val(k.back()));
            }
            else if (o == "free")
            {
                int id = in.i();
                m.erase(id);
                r.i("id", id);
            }
            show(r);
        }
        m.clear();
        watching = false;
        rec("end").i("live", elem::alive.size()).i("blocks", blocks).i("bad", elem::bad).out();
    }
};

static void fractions(vh::in_t& in)
{
    fraction q[4];
    rec("init").out();
    for (size_t nops = in.i(); nops--;)
    {
        std::string o = in.word();
        rec r(o.c_str());
        if (o == "rel")
        {
            int a = in.i(), b = in.i();
            r.i("a", a).i("b", b);
            r.key("r");
            auto s = [](bool x) { return x ? "true" : "false"; };
            r.s += std::string("[") + s(q[a] == q[b]) + "," + s(q[a] != q[b]) + "," + s(q[a] < q[b]) + "," + s(q[a] <= q[b]) + "," + s(q[a] > q[b]) + "," + s(q[a] >= q[b]) + "]";
            r.out();
            continue;
        }
        int id = in.i();
        if (o == "num")
        {
            long long n = in.i(), d = in.i();
            q[id] = d == 1 ? fraction(n) : fraction(n, d);
            r.i("n", n).i("d", d);
        }
        else if (o == "neg")
        {
            int a = in.i();
            r.i("a", a);
            q[id] = -(+q[a]);
        }
        else
        {
            std::string op = in.word();
            int a = in.i(), b = in.i(), assign = in.i();
            fraction x = q[a];
            char c     = op[0];
            if (assign)
                c == '+' ? x += q[b] : c == '-' ? x -= q[b] : c == '*' ? x *= q[b] : x /= q[b];
            else
                x = c == '+' ? x + q[b] : c == '-' ? x - q[b] : c == '*' ? x * q[b] : x / q[b];
            q[id] = x;
            r.str("op", op).i("a", a).i("b", b);
        }
        fraction& f = q[id];
        double v    = (double)f.numerator / f.denominator;
        r.i("id", id).list("r", std::vector<long long>{ f.numerator, f.denominator }).str("text", as_string(f)).i("whole", (i64)f).b("nonzero", (bool)f);
        r.b("value", (double)f == v && (float)f == (float)f.numerator / f.denominator).out();
    }
}

int main()
{
    vh::in_t in;
    while (in.line())
    {
        std::string t = in.word();
        int cap       = in.i();
        if (t == "f")
            fractions(in);
        else if (t == "s")
            cap == 1 ? runner<small_buffer<int, 1>, false>().run(in, cap) : cap == 4 ? runner<small_buffer<int, 4>, false>().run(in, cap) : runner<small_buffer<int>, false>().run(in, cap);
        else if (t == "c")
            cap == 1 ? runner<small_buffer<elem, 1>, false>().run(in, cap) : cap == 4 ? runner<small_buffer<elem, 4>, false>().run(in, cap) : runner<small_buffer<elem>, false>().run(in, cap);
        else
            cap == 1 ? runner<inline_vector<int, 1>, true>().run(in, cap) : cap == 5 ? runner<inline_vector<int, 5>, true>().run(in, cap) : cap == 16 ? runner<inline_vector<short, 16>, true>().run(in, cap) : runner<inline_vector<int, 300>, true>().run(in, cap);
    }
}
