// A program with the libraries built for several instruction sets; see spec/Dispatch.tla.  Script line: nops ops...
#include <kfr/dft.hpp>
#include <kfr/dsp.hpp>
#include <kfr/runtime.hpp>
#include <map>
#include <memory>
#include <signal.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>
#include "vh.hpp"
using namespace kfr;
using vh::rec;

// ---- which instruction sets' code is entered (the libraries are compiled with -finstrument-functions) ----
static unsigned entered_mask = 0;
extern "C" void entered_sse2(void*, void*) { entered_mask |= 1u << 1; }
extern "C" void entered_sse41(void*, void*) { entered_mask |= 1u << 4; }
extern "C" void entered_avx(void*, void*) { entered_mask |= 1u << 6; }
extern "C" void entered_avx2(void*, void*) { entered_mask |= 1u << 7; }
extern "C" void entered_avx512(void*, void*) { entered_mask |= 1u << 8; }
extern "C" void left_code(void*, void*) {}
static std::vector<int> codes()
{
    std::vector<int> v;
    for (int i = 0; i < 16; i++)
        if (entered_mask >> i & 1)
            v.push_back(i);
    entered_mask = 0;
    return v;
}

// ---- another processor: CPUID is trapped and answered with fewer features (environment variable FAKE_CPU) ----
enum { f_sse3, f_ssse3, f_sse41, f_sse42, f_os, f_avx, f_fma, f_avx2, f_512f, f_512cd, f_512dq, f_512bw, f_512vl, f_leaf7 };
static unsigned fake = 0;
static void trapped(int, siginfo_t*, void* u)
{
    greg_t* r        = ((ucontext_t*)u)->uc_mcontext.gregs;
    unsigned char* p = (unsigned char*)r[REG_RIP];
    if (p[0] != 0x0f || p[1] != 0xa2)
        _exit(77);
    unsigned leaf = (unsigned)r[REG_RAX], a, b, c = (unsigned)r[REG_RCX], d;
    syscall(SYS_arch_prctl, 0x1012, 1);
    __asm__ volatile("cpuid" : "=a"(a), "=b"(b), "+c"(c), "=d"(d) : "0"(leaf));
    syscall(SYS_arch_prctl, 0x1012, 0);
    auto bit = [](unsigned& x, int i, int f) { x = (x & ~(1u << i)) | ((fake >> f & 1u) << i); };
    if (leaf == 0 && !(fake >> f_leaf7 & 1))
        a = 1;
    if (leaf == 1)
    {
        bit(c, 0, f_sse3), bit(c, 9, f_ssse3), bit(c, 12, f_fma), bit(c, 19, f_sse41), bit(c, 20, f_sse42);
        bit(c, 27, f_os), bit(c, 28, f_avx);
    }
    if (leaf == 7)
        bit(b, 5, f_avx2), bit(b, 16, f_512f), bit(b, 17, f_512dq), bit(b, 28, f_512cd), bit(b, 30, f_512bw), bit(b, 31, f_512vl);
    r[REG_RAX] = a, r[REG_RBX] = b, r[REG_RCX] = c, r[REG_RDX] = d;
    r[REG_RIP] += 2;
}
__attribute__((constructor(101))) static void disguise()
{
    if (const char* e = getenv("FAKE_CPU"))
    {
        fake = (unsigned)atoi(e);
        struct sigaction s = {};
        s.sa_sigaction     = trapped;
        s.sa_flags         = SA_SIGINFO | SA_NODEFER;
        sigaction(SIGSEGV, &s, nullptr);
        if (syscall(SYS_arch_prctl, 0x1012, 0) != 0)
            _exit(66); // not possible here
    }
}
static const char* self;
// what a program on such a processor selects at its start; -1 when it cannot be had
static int disguised(unsigned features)
{
    char var[40], out[16] = {};
    snprintf(var, sizeof(var), "FAKE_CPU=%u", features);
    int fd[2];
    if (pipe(fd))
        return -1;
    pid_t pid = fork();
    if (pid == 0)
    {
        dup2(fd[1], 1);
        char* argv[] = { (char*)self, (char*)"report", nullptr };
        char* env[]  = { var, nullptr };
        execve(self, argv, env);
        _exit(66);
    }
    close(fd[1]);
    ssize_t n = read(fd[0], out, sizeof(out) - 1);
    close(fd[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 66)
        return -1;
    return n > 0 && WIFEXITED(st) && WEXITSTATUS(st) == 0 ? atoi(out) : -2;
}

// ---- objects ----
template <typename T>
static T mk(long long x)
{
    if constexpr (std::is_same_v<T, complex<subtype<T>>>)
        return T(subtype<T>(x), subtype<T>(-2 * x));
    else
        return T(x);
}
template <typename T>
static void put_nums(std::vector<long long>& o, T x, double tol)
{
    if constexpr (std::is_same_v<T, complex<subtype<T>>>)
    {
        // the imaginary part is -2 times the real one
        long long a = vh::num((double)x.real(), tol), b = vh::num((double)x.imag(), 2 * tol);
        o.push_back(b == -2 * a ? a : vh::NOT_INT);
    }
    else
        o.push_back(vh::num((double)x, tol));
}
struct object
{
    virtual ~object() {}
    virtual void put(rec& r, int how, const std::vector<long long>& x) = 0;
    virtual void reset() {}
};
static std::string kind_json, p_json; // of what has been made last
static std::string json(const std::vector<long long>& v)
{
    std::string s = "[";
    for (size_t i = 0; i < v.size(); i++)
        s += (i ? "," : "") + std::to_string(v[i]);
    return s + "]";
}
template <typename T, typename F>
struct filter_object : object
{
    F f;
    double tol;
    template <typename... A>
    filter_object(double tol, A&&... a) : f(std::forward<A>(a)...), tol(tol)
    {
    }
    void put(rec& r, int how, const std::vector<long long>& x) override
    {
        univector<T> in(x.size()), out(x.size());
        for (size_t i = 0; i < x.size(); i++)
            in[i] = mk<T>(x[i]);
        if (how == 0)
            f.apply(out.data(), in.data(), in.size());
        else if (how == 1)
            out = in, f.apply(out.data(), out.size());
        else
            f.apply(out, in + mk<T>(0));
        std::vector<long long> o;
        for (T v : out)
            put_nums(o, v, tol);
        r.list("out", o);
    }
    void reset() override { f.reset(); }
};
template <typename T>
struct src_object : object
{
    std::unique_ptr<samplerate_converter<T>> c, twin;
    std::vector<long long> pend, tpend;
    src_object(int up, int down)
    {
        auto make = [&]
        {
            std::unique_ptr<samplerate_converter<T>> p(new samplerate_converter<T>(sample_rate_conversion_quality::draft, up, down));
            for (size_t j = 0; j < p->filter.size(); ++j)
                p->filter[j] = subtype<T>((long long)(j * 7 + j / 5) % 19 - 9);
            return p;
        };
        c             = make();
        cpu_t was     = override_cpu(cpu_t::sse2);
        unsigned mask = entered_mask;
        twin          = make();
        override_cpu(was), entered_mask = mask;
    }
    size_t push(samplerate_converter<T>& k, std::vector<long long>& q, const std::vector<long long>& x, std::vector<long long>& o)
    {
        q.insert(q.end(), x.begin(), x.end());
        univector<T> in(q.size()), out(k.output_size_for_input(q.size()));
        for (size_t i = 0; i < in.size(); i++)
            in[i] = mk<T>(q[i]);
        size_t used = k.process(out, in.slice());
        if (used <= q.size())
            q.erase(q.begin(), q.begin() + used);
        for (T v : out)
            put_nums(o, v, 0);
        return used;
    }
    void put(rec& r, int, const std::vector<long long>& x) override
    {
        std::vector<long long> o, t;
        size_t u      = push(*c, pend, x, o);
        cpu_t was     = override_cpu(cpu_t::sse2);
        unsigned mask = entered_mask;
        size_t v      = push(*twin, tpend, x, t);
        override_cpu(was), entered_mask = mask;
        r.list("out", o).list("twin", t).i("used", u).i("tused", v);
    }
};
// transforms: the values of the twin made and run on the lowest instruction set, and the round trip
template <typename T>
static bool close_to(const T* a, const T* b, size_t n, double scale)
{
    double eps = sizeof(subtype<T>) == 4 ? 2e-5 : 1e-11;
    for (size_t i = 0; i < n; i++)
        if (!(std::abs(a[i] - b[i]) <= eps * scale))
            return false;
    return true;
}
template <typename T, typename I, typename O, typename P>
struct transform_object : object
{
    std::unique_ptr<P> p, twin;
    size_t nin, nout, n;
    template <typename M>
    transform_object(size_t nin, size_t nout, size_t n, M make) : nin(nin), nout(nout), n(n)
    {
        p.reset(make());
        cpu_t was     = override_cpu(cpu_t::sse2);
        unsigned mask = entered_mask;
        twin.reset(make());
        override_cpu(was), entered_mask = mask;
    }
    void put(rec& r, int how, const std::vector<long long>& x) override
    {
        univector<I> in(nin), back(nin);
        univector<O> out(nout, O(0)), tw(nout, O(0));
        double scale = 1;
        for (size_t i = 0; i < nin; i++)
        {
            in[i] = mk<I>(i < x.size() ? x[i] : 0);
            scale += 3 * std::fabs(double(i < x.size() ? x[i] : 0));
        }
        univector<u8> temp(p->temp_size), ttemp(twin->temp_size);
        p->execute(out.data(), in.data(), temp.data());
        std::vector<int> seen = codes();
        cpu_t was = override_cpu(cpu_t::sse2);
        twin->execute(tw.data(), in.data(), ttemp.data());
        override_cpu(was);
        entered_mask = 0;
        if constexpr (std::is_same_v<P, dct_plan<T>>)
            p->execute(back.data(), out.data(), temp.data(), true);
        else if constexpr (std::is_same_v<I, O>)
            p->execute(back.data(), out.data(), temp.data(), cbool<true>);
        else
            p->execute(back.data(), out.data(), temp.data());
        for (int s : seen)
            entered_mask |= 1u << s;
        std::vector<long long> o;
        double k = std::is_same_v<P, dct_plan<T>> ? 2.0 / n : 1.0 / n;
        for (size_t i = 0; i < nin; i++)
            put_nums(o, I(back[i] * subtype<I>(k)), 0.01);
        r.list("out", o).b("same", close_to(out.data(), tw.data(), nout, scale));
    }
};
template <typename T>
struct md_plan : dft_plan_md<T, 2>
{
    using dft_plan_md<T, 2>::dft_plan_md;
};
template <typename T>
static object* make(vh::in_t& in, const std::string& kind)
{
    using S   = subtype<T>;
    kind_json = kind == "src" || kind == "fir" || kind == "iir" || kind == "conv" ? kind : "transform";
    p_json    = "[]";
    if constexpr (std::is_same_v<T, S>)
    {
        if (kind == "iir")
        {
            p_json = "[";
            std::vector<biquad_section<T>> s;
            for (size_t n = in.i(); n--;)
            {
                T b0 = in.i(), b1 = in.i(), b2 = in.i(), a1 = in.i(), a2 = in.i();
                s.push_back({ T(1), a1, a2, b0, b1, b2 });
                p_json += (s.size() > 1 ? "," : "") + json({ (long long)b0, (long long)b1, (long long)b2, (long long)a1, (long long)a2 });
            }
            p_json += "]";
            return new filter_object<T, iir_filter<T>>(0, iir_params<T>(s.data(), s.size()));
        }
        if (kind == "rdft")
        {
            size_t n = in.i();
            return new transform_object<T, T, complex<T>, dft_plan_real<T>>(n, n / 2 + 1, n, [=] { return new dft_plan_real<T>(n); });
        }
        if (kind == "dct")
        {
            size_t n = in.i();
            return new transform_object<T, T, T, dct_plan<T>>(n, n, n, [=] { return new dct_plan<T>(n); });
        }
        if (kind == "dft")
        {
            size_t n = in.i();
            return new transform_object<T, complex<T>, complex<T>, dft_plan<T>>(n, n, n, [=] { return new dft_plan<T>(n); });
        }
        if (kind == "md")
        {
            size_t a = in.i(), b = in.i();
            return new transform_object<T, complex<T>, complex<T>, md_plan<T>>(a * b, a * b, a * b, [=] { return new md_plan<T>(shape<2>{ a, b }); });
        }
    }
    if (kind == "conv")
    {
        size_t block = in.i();
        std::vector<long long> h = in.list();
        p_json                   = json(h);
        univector<T> ir(h.size());
        for (size_t i = 0; i < h.size(); i++)
            ir[i] = T(S(h[i]));
        return new filter_object<T, convolve_filter<T>>(0.02, ir, block);
    }
    if (kind == "fir")
    {
        std::vector<long long> h = in.list();
        p_json                   = json(h);
        univector<S> t(h.begin(), h.end());
        return new filter_object<T, fir_filter<S, T>>(0, t);
    }
    int up = in.i(), down = in.i();
    return new src_object<T>(up, down);
}
template <typename T>
static std::vector<long long> once(bool corr, const std::vector<long long>& a, const std::vector<long long>& b)
{
    univector<T> x(a.size()), y(b.size()), z;
    for (size_t i = 0; i < a.size(); i++)
        x[i] = mk<T>(a[i]);
    for (size_t i = 0; i < b.size(); i++)
        y[i] = T(subtype<T>(b[i]));
    z = corr ? correlate(x, y) : convolve(x, y);
    std::vector<long long> o;
    for (T v : z)
        put_nums(o, v, 0.02);
    return o;
}

int main(int argc, char** argv)
{
    if (argc > 1)
    {
        std::printf("%d\n", (int)get_cpu());
        return 0;
    }
    self              = argv[0];
    const cpu_t first = get_cpu();
    vh::in_t in;
    while (in.line())
    {
        override_cpu(first);
        rec("init").list("en", std::vector<int>{ ENABLED }).i("sel", (int)get_cpu()).out();
        std::map<int, std::unique_ptr<object>> objs;
        for (size_t nops = in.i(); nops--;)
        {
            std::string op = in.word();
            entered_mask   = 0;
            if (op == "sel")
            {
                int c     = in.i();
                cpu_t was = override_cpu((cpu_t)c);
                rec("sel").i("to", c).i("was", (int)was).i("now", (int)get_cpu()).out();
            }
            else if (op == "detect")
            {
                unsigned f = (unsigned)in.i();
                std::vector<int> bits;
                for (int i = 0; i <= f_leaf7; i++)
                    if (f >> i & 1)
                        bits.push_back(i);
                rec("detect").list("f", bits).i("cpu", disguised(f)).out();
            }
            else if (op == "make")
            {
                int id           = in.i();
                std::string kind = in.word();
                int t            = in.i();
                objs[id].reset(t == 0 ? make<float>(in, kind) : t == 1 ? make<double>(in, kind) : t == 2 ? make<complex<float>>(in, kind) : make<complex<double>>(in, kind));
                rec r("make");
                r.i("id", id).str("kind", kind_json).list("ran", codes());
                r.key("p"), r.s += p_json;
                r.out();
            }
            else if (op == "put")
            {
                int id = in.i(), how = in.i();
                std::vector<long long> x = in.list();
                rec r("put");
                r.i("id", id).list("x", x);
                objs[id]->put(r, how, x);
                r.list("ran", codes()).out();
            }
            else if (op == "reset" || op == "drop")
            {
                int id = in.i();
                op == "reset" ? objs[id]->reset() : (void)objs.erase(id);
                rec(op.c_str()).i("id", id).list("ran", codes()).out();
            }
            else
            {
                int t = in.i(), corr = in.i();
                std::vector<long long> a = in.list(), b = in.list();
                std::vector<long long> o = t == 0 ? once<float>(corr, a, b) : t == 1 ? once<double>(corr, a, b) : t == 2 ? once<complex<float>>(corr, a, b) : once<complex<double>>(corr, a, b);
                rec("once").b("corr", corr).list("a", a).list("b", b).list("out", o).list("ran", codes()).out();
            }
        }
    }
}
