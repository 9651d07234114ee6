// Transform plans driven by scripts; see spec/Dft.tla.  Script line:
//   variant kind(c|r) family-flag ndims dims... nops ops...
#include <kfr/dft.hpp>
#include "vh.hpp"
#include "gbuf.hpp"
#ifndef PART
#define PART 0
#endif
using namespace kfr;
using cd = std::complex<double>;
using vh::rec;

static size_t prod(const std::vector<long long>& s)
{
    size_t p = 1;
    for (auto x : s)
        p *= (size_t)x;
    return p;
}
static std::vector<cd> roots(size_t n)
{
    std::vector<cd> r(n);
    for (size_t i = 0; i < n; ++i)
        r[i] = cd((double)cosl(2 * M_PIl * i / n), (double)sinl(2 * M_PIl * i / n));
    return r;
}
// the defining sums, one axis after the other
static void naive(std::vector<cd>& x, const std::vector<long long>& sh, bool inverse)
{
    size_t inner = 1;
    for (size_t ax = sh.size(); ax-- > 0;)
    {
        size_t n   = (size_t)sh[ax];
        auto w     = roots(n);
        size_t out = x.size() / (n * inner);
        std::vector<cd> row(n);
        for (size_t o = 0; o < out; ++o)
            for (size_t i = 0; i < inner; ++i)
            {
                cd* b = x.data() + o * n * inner + i;
                for (size_t k = 0; k < n; ++k)
                {
                    cd s = 0;
                    size_t ph = 0;
                    for (size_t j = 0; j < n; ++j)
                    {
                        s += b[j * inner] * (inverse ? w[ph] : std::conj(w[ph]));
                        ph += k;
                        if (ph >= n)
                            ph -= n;
                    }
                    row[k] = s;
                }
                for (size_t k = 0; k < n; ++k)
                    b[k * inner] = row[k];
            }
        inner *= n;
    }
}

enum pfmt_t
{
    CX,
    CCs,
    Perm
};

// One plan of either sort behind a uniform face.
template <typename T>
struct face
{
    virtual ~face() {}
    virtual size_t temp_size() const                                                    = 0;
    virtual void run(int dir, T* out, const T* in, u8* temp, int mode)                  = 0;
    virtual size_t out_reals(int dir) const                                             = 0; // output elements (T)
    virtual size_t in_reals(int dir) const                                              = 0;
};

template <typename T>
struct face_c : face<T>
{
    dft_plan<T> plan;
    size_t n;
    face_c(size_t n) : plan(n), n(n) {}
    size_t temp_size() const override { return plan.temp_size; }
    size_t out_reals(int) const override { return 2 * n; }
    size_t in_reals(int) const override { return 2 * n; }
    void run(int dir, T* out, const T* in, u8* temp, int mode) override
    {
        complex<T>* o       = ptr_cast<complex<T>>(out);
        const complex<T>* i = ptr_cast<complex<T>>(in);
        if (mode == 2)
        {
            univector_ref<complex<T>> uo(o, n);
            univector<complex<T>, 0> ui(const_cast<complex<T>*>(i), n);
            univector<u8, 0> ut(temp, plan.temp_size);
            plan.execute(uo, ui, ut, dir == 1);
        }
        else if (mode == 3)
            plan.execute(o, i, temp, dir == 1);
        else if (dir == 0)
            plan.execute(o, i, mode == 1 ? nullptr : temp, cfalse);
        else
            plan.execute(o, i, mode == 1 ? nullptr : temp, ctrue);
    }
};
template <typename T>
struct face_r : face<T>
{
    dft_plan_real<T> plan;
    size_t n;
    face_r(size_t n, dft_pack_format f) : plan(n, f), n(n) {}
    size_t temp_size() const override { return plan.temp_size; }
    size_t out_reals(int dir) const override { return dir == 0 ? 2 * plan.complex_size() : n; }
    size_t in_reals(int dir) const override { return dir == 1 ? 2 * plan.complex_size() : n; }
    void run(int dir, T* out, const T* in, u8* temp, int mode) override
    {
        if (mode == 1)
            temp = nullptr;
        if (mode == 2)
        {
            univector<u8, 0> ut(temp, plan.temp_size);
            if (dir == 0)
            {
                univector<complex<T>, 0> o(ptr_cast<complex<T>>(out), plan.complex_size());
                univector<T, 0> i(const_cast<T*>(in), n);
                plan.execute(o, i, ut);
            }
            else
            {
                univector<T, 0> o(out, n);
                univector<complex<T>, 0> i(ptr_cast<complex<T>>(const_cast<T*>(in)), plan.complex_size());
                plan.execute(o, i, ut);
            }
        }
        else if (dir == 0)
            plan.execute(ptr_cast<complex<T>>(out), in, temp);
        else
            plan.execute(out, ptr_cast<complex<T>>(in), temp);
    }
};
template <typename T, index_t D>
shape<D> mkshape(const std::vector<long long>& s)
{
    if constexpr (D == dynamic_shape)
    {
        shape<D> r(s.size());
        for (size_t i = 0; i < s.size(); ++i)
            r[i] = (index_t)s[i];
        return r;
    }
    else
    {
        shape<D> r;
        for (size_t i = 0; i < s.size(); ++i)
            r[i] = (index_t)s[i];
        return r;
    }
}
template <typename T, index_t D>
struct face_md : face<T>
{
    dft_plan_md<T, D> plan;
    size_t n;
    shape<D> sh;
    face_md(const std::vector<long long>& s) : plan(mkshape<T, D>(s)), n(prod(s)), sh(mkshape<T, D>(s)) {}
    size_t temp_size() const override { return plan.temp_size; }
    size_t out_reals(int) const override { return 2 * n; }
    size_t in_reals(int) const override { return 2 * n; }
    void run(int dir, T* out, const T* in, u8* temp, int mode) override
    {
        complex<T>* o       = ptr_cast<complex<T>>(out);
        const complex<T>* i = ptr_cast<complex<T>>(in);
        if (mode == 2)
        {
            if constexpr (D != dynamic_shape)
            {
                tensor<complex<T>, D> to(o, sh, memory_finalizer{}), ti(const_cast<complex<T>*>(i), sh, memory_finalizer{});
                plan.execute(to, ti, temp, dir == 1);
            }
            else
                plan.execute(o, i, temp, dir == 1);
        }
        else if (mode == 3)
            plan.execute(o, i, temp, dir == 1);
        else if (dir == 0)
            plan.execute(o, i, mode == 1 ? nullptr : temp, cfalse);
        else
            plan.execute(o, i, mode == 1 ? nullptr : temp, ctrue);
    }
};
template <typename T, index_t D>
struct face_mdr : face<T>
{
    dft_plan_md_real<T, D> plan;
    size_t n;
    shape<D> sh;
    face_mdr(const std::vector<long long>& s, bool enough)
        : plan(mkshape<T, D>(s), enough), n(prod(s)), sh(mkshape<T, D>(s))
    {
    }
    size_t temp_size() const override { return plan.temp_size; }
    size_t csize() const { return 2 * plan.complex_size().product(); }
    size_t out_reals(int dir) const override
    {
        return dir == 0 ? csize() : plan.real_out_is_enough ? plan.real_out_size() : n;
    }
    size_t in_reals(int dir) const override { return dir == 1 ? csize() : n; }
    void run(int dir, T* out, const T* in, u8* temp, int mode) override
    {
        if (mode == 1)
            temp = nullptr;
        if (mode == 2)
        {
            if constexpr (D != dynamic_shape)
            {
                if (dir == 0)
                {
                    tensor<complex<T>, D> o(ptr_cast<complex<T>>(out), plan.complex_size(), memory_finalizer{});
                    tensor<T, D> i(const_cast<T*>(in), sh, memory_finalizer{});
                    plan.execute(o, i, temp);
                }
                else
                {
                    tensor<T, D> o(out, sh, memory_finalizer{});
                    tensor<complex<T>, D> i(ptr_cast<complex<T>>(const_cast<T*>(in)), plan.complex_size(), memory_finalizer{});
                    plan.execute(o, i, temp);
                }
                return;
            }
        }
        if (mode == 3)
        {
            if (dir == 0)
                plan.execute(ptr_cast<complex<T>>(out), in, temp, false);
            else
                plan.execute(out, ptr_cast<complex<T>>(in), temp, true);
            return;
        }
        if (dir == 0)
            plan.execute(ptr_cast<complex<T>>(out), in, temp);
        else
            plan.execute(out, ptr_cast<complex<T>>(in), temp);
    }
};

template <typename T>
struct session
{
    std::vector<long long> sh, half;
    size_t P, HP;
    bool real;
    pfmt_t fmt;
    std::unique_ptr<face<T>> f;
    std::vector<T> store[4]; // raw content of the buffers
    double tol, itol;

    void load(int b, const std::string& dom, unsigned long long seed)
    {
        std::vector<long long> v(2 * P);
        unsigned long long s = seed * 2654435761ull + 12345;
        for (size_t i = 0; i < 2 * P; ++i)
        {
            s = s * 6364136223846793005ull + 1442695040888963407ull;
            v[i] = (long long)((s >> 40) % 7) - 3;
            if (real && (i % 2))
                v[i] = 0;
        }
        std::vector<cd> x(P);
        for (size_t i = 0; i < P; ++i)
            x[i] = cd((double)v[2 * i], (double)v[2 * i + 1]);
        if (dom == "t")
        {
            store[b].clear();
            for (size_t i = 0; i < P; ++i)
            {
                store[b].push_back((T)v[2 * i]);
                if (!real)
                    store[b].push_back((T)v[2 * i + 1]);
            }
        }
        else
        {
            naive(x, sh, false);
            store[b] = pack(x);
        }
        rec("load").i("b", b).str("dom", dom).list("v", v).out();
    }
    std::vector<T> pack(const std::vector<cd>& x) // full spectrum -> what the plan exchanges
    {
        std::vector<T> r;
        if (!real)
        {
            for (auto& c : x)
                r.push_back((T)c.real()), r.push_back((T)c.imag());
            return r;
        }
        size_t n = (size_t)sh.back(), rows = P / n, h = n / 2;
        for (size_t i = 0; i < rows; ++i)
        {
            const cd* row = x.data() + i * n;
            if (fmt == Perm)
            {
                r.push_back((T)row[0].real());
                r.push_back((T)row[h].real());
                for (size_t k = 1; k < h; ++k)
                    r.push_back((T)row[k].real()), r.push_back((T)row[k].imag());
            }
            else
                for (size_t k = 0; k <= h; ++k)
                    r.push_back((T)row[k].real()), r.push_back((T)row[k].imag());
        }
        return r;
    }
    // full spectrum from what the plan produced (conjugate symmetry for the missing half)
    std::vector<cd> unpack(const std::vector<T>& r)
    {
        std::vector<cd> x(P);
        if (!real)
        {
            for (size_t i = 0; i < P; ++i)
                x[i] = cd(r[2 * i], r[2 * i + 1]);
            return x;
        }
        size_t n = (size_t)sh.back(), rows = P / n, h = n / 2;
        size_t w = fmt == Perm ? h : h + 1;
        for (size_t i = 0; i < rows; ++i)
            for (size_t k = 0; k <= h; ++k)
            {
                cd v;
                if (fmt == Perm)
                    v = k == 0 ? cd(r[0], 0) : k == h ? cd(r[1], 0) : cd(r[2 * k], r[2 * k + 1]);
                else
                    v = cd(r[2 * (i * w + k)], r[2 * (i * w + k) + 1]);
                x[i * n + k] = v;
                // mirrored position in the other axes
                size_t mi = 0, rest = i, mul = rows;
                for (size_t d = 0; d + 1 < sh.size(); ++d)
                {
                    mul /= (size_t)sh[d];
                    size_t c = rest / mul;
                    rest %= mul;
                    mi = mi * (size_t)sh[d] + ((size_t)sh[d] - c) % (size_t)sh[d];
                }
                if (k != 0 && k != h)
                    x[mi * n + (n - k)] = std::conj(v);
            }
        return x;
    }
    // runs the plan; dst content replaced
    struct outcome
    {
        bool ok, same;
        std::vector<T> out;
    };
    outcome go(int dir, const std::vector<T>& src, bool inplace, int mode, int align)
    {
        size_t ni = f->in_reals(dir), no = f->out_reals(dir), ts = f->temp_size();
        gbuf temp(ts);
        outcome r;
        r.same = true;
        if (src.size() != ni)
        {
            std::fprintf(stderr, "harness: size %zu expected %zu\n", src.size(), ni);
            std::exit(4);
        }
        size_t sa = (align & 1) ? 2 * sizeof(T) : 0, da = (align & 2) ? 2 * sizeof(T) : 0;
        if (inplace)
        {
            gbuf b(std::max(ni, no) * sizeof(T), sa);
            std::memcpy(b.data(), src.data(), ni * sizeof(T));
            f->run(dir, (T*)b.data(), (const T*)b.data(), temp.data(), mode);
            r.ok = b.check() && temp.check();
            r.out.assign((T*)b.data(), (T*)b.data() + no);
        }
        else
        {
            gbuf a(ni * sizeof(T), sa), b(no * sizeof(T), da);
            std::memcpy(a.data(), src.data(), ni * sizeof(T));
            f->run(dir, (T*)b.data(), (const T*)a.data(), temp.data(), mode);
            r.ok   = a.check() && b.check() && temp.check();
            r.same = std::memcmp(a.data(), src.data(), ni * sizeof(T)) == 0;
            r.out.assign((T*)b.data(), (T*)b.data() + no);
        }
        // plans with real_out_is_enough use the spare room of the real output
        if (real && dir == 1)
            r.out.resize(P);
        return r;
    }
    double maxerr = 0;
    void exec(int dir, int dst, int src, int mode, int align, const std::string& dom, int pow)
    {
        auto o  = go(dir, store[src], dst == src, mode, align);
        bool sk = false;
        std::vector<long long> v;
        double scale = std::pow((double)P, pow);
        if (dom == "t")
        {
            for (size_t i = 0; i < P; ++i)
            {
                double re = real ? o.out[i] : o.out[2 * i], im = real ? 0 : o.out[2 * i + 1];
                v.push_back(vh::num(re / scale, itol));
                v.push_back(vh::num(im / scale, itol));
                maxerr = std::max(maxerr, std::fabs(re / scale - std::nearbyint(re / scale)));
            }
        }
        else if (sh.size() == 1 && P > 2048)
            sk = true;
        else
        {
            auto x = unpack(o.out);
            bool imok = true;
            if (real && fmt == CCs && sh.size() == 1)
                imok = std::fabs(x[0].imag()) == 0 && std::fabs(x[P / 2].imag()) == 0;
            naive(x, sh, true);
            for (size_t i = 0; i < P; ++i)
            {
                double re = x[i].real() / P / scale, im = x[i].imag() / P / scale;
                v.push_back(imok ? vh::num(re, itol) : vh::NOT_INT);
                v.push_back(vh::num(im, itol));
                maxerr = std::max(maxerr, std::fabs(re - std::nearbyint(re)));
            }
        }
        store[dst] = o.out;
        rec r("exec");
        r.i("dir", dir).i("dst", dst).i("src", src).str("dom", dom).i("pow", pow).b("ok", o.ok).b("same", o.same).b("skip", sk).list("v", v).out();
    }
    double maxierr = 0;
    long long index_of(double re, double im)
    {
        double mag = std::hypot(re, im);
        if (!(std::fabs(mag - 1) < 0.5))
            return vh::NOT_INT;
        long long M = 4 * (long long)P;
        long long i = (long long)std::nearbyint(std::atan2(im, re) * M / (2 * M_PI));
        i           = ((i % M) + M) % M;
        double a = 2 * M_PI * i / M, e = std::hypot(re - std::cos(a), im - std::sin(a));
        maxierr = std::max(maxierr, e);
        if (!(e < tol))
            return vh::NOT_INT;
        return i;
    }
    void impulse(int dir, size_t p, int q, int mode, bool inplace, int align)
    {
        std::vector<T> in(f->in_reals(dir), T(0));
        if (real)
            in[p] = 1;
        else
            in[2 * p + (q & 1)] = q < 2 ? 1 : -1;
        auto o      = go(dir, in, inplace, mode, align);
        long long M = 4 * (long long)P;
        size_t n    = o.out.size() / 2, first = fmt == Perm ? 1 : 0;
        std::string runs = "[";
        long long k0 = -1, i0 = 0, len = 0, step = 0, prev = 0;
        auto flush = [&]
        {
            if (k0 >= 0)
            {
                if (runs.size() > 1)
                    runs += ",";
                runs += "[" + std::to_string(k0) + "," + std::to_string(len) + "," + std::to_string(i0) + "," +
                        std::to_string(step) + "]";
            }
        };
        for (size_t k = first; k < n; ++k)
        {
            long long i = index_of(o.out[2 * k], o.out[2 * k + 1]);
            bool cont   = k0 >= 0 && i != vh::NOT_INT && prev != vh::NOT_INT &&
                        (len == 1 || (i - prev - step) % M == 0);
            if (cont)
            {
                if (len == 1)
                    step = ((i - prev) % M + M) % M;
                ++len;
            }
            else
            {
                flush();
                k0 = (long long)k, i0 = i, len = 1, step = 0;
            }
            prev = i;
        }
        flush();
        runs += "]";
        rec r("imp");
        r.i("dir", dir).i("p", (long long)p).i("q", q).str("fmt", fmt == Perm ? "Perm" : fmt == CCs ? "CCs" : "C").b("ok", o.ok).b("same", o.same).i("n", (long long)n);
        std::vector<long long> dc;
        if (fmt == Perm)
            dc = { vh::num(o.out[0], tol), vh::num(o.out[1], tol) };
        r.list("dc", dc);
        r.key("runs");
        r.s += runs;
        r.out();
    }
    void script(vh::in_t& in)
    {
        P = prod(sh);
        size_t nops = (size_t)in.i();
        tol         = sizeof(T) == 4 ? 1e-5 : 1e-11;
        itol        = sizeof(T) == 4 ? 0.02 : 1e-6;
        for (size_t j = 0; j < nops; ++j)
        {
            std::string w = in.word();
            if (w == "L")
            {
                int b         = (int)in.i();
                std::string d = in.word();
                load(b, d, (unsigned long long)in.i());
            }
            else if (w == "X")
            {
                int dir = (int)in.i(), dst = (int)in.i(), src = (int)in.i(), mode = (int)in.i(), al = (int)in.i();
                std::string dom = in.word();
                int pow         = (int)in.i();
                exec(dir, dst, src, mode, al, dom, pow);
            }
            else if (w == "I")
            {
                int dir  = (int)in.i();
                size_t p = (size_t)in.i();
                int q = (int)in.i(), mode = (int)in.i(), inp = (int)in.i(), al = (int)in.i();
                impulse(dir, p, q, mode, inp, al);
            }
            else if (w == "A") // every position
            {
                int dir = (int)in.i(), mode = (int)in.i(), inp = (int)in.i();
                for (size_t p = 0; p < P; ++p)
                    impulse(dir, p, real ? 0 : (int)(p % 4), mode, inp, (int)(p / 4 % 4));
            }
            else
            {
                std::fprintf(stderr, "harness: op %s\n", w.c_str());
                std::exit(4);
            }
        }
        if (getenv("VH_ERR"))
            std::fprintf(stderr, "P=%zu maxerr %g imp %g\n", P, maxerr, maxierr);
    }
};

template <typename T>
static std::unique_ptr<face<T>> make(char kind, bool md, int flag, const std::vector<long long>& sh)
{
#if PART == 0
    if (kind == 'c')
        return std::unique_ptr<face<T>>(new face_c<T>((size_t)sh[0]));
    return std::unique_ptr<face<T>>(new face_r<T>((size_t)sh[0], flag ? dft_pack_format::Perm : dft_pack_format::CCs));
#else
    if (kind == 'c')
    {
        if (flag)
            return std::unique_ptr<face<T>>(new face_md<T, dynamic_shape>(sh));
        switch (sh.size())
        {
        case 1:
            return std::unique_ptr<face<T>>(new face_md<T, 1>(sh));
        case 2:
            return std::unique_ptr<face<T>>(new face_md<T, 2>(sh));
        case 3:
            return std::unique_ptr<face<T>>(new face_md<T, 3>(sh));
        case 4:
            return std::unique_ptr<face<T>>(new face_md<T, 4>(sh));
        default:
            return std::unique_ptr<face<T>>(new face_md<T, 5>(sh));
        }
    }
    bool enough = flag & 2;
    if (flag & 1)
        return std::unique_ptr<face<T>>(new face_mdr<T, dynamic_shape>(sh, enough));
    switch (sh.size())
    {
    case 1:
        return std::unique_ptr<face<T>>(new face_mdr<T, 1>(sh, enough));
    case 2:
        return std::unique_ptr<face<T>>(new face_mdr<T, 2>(sh, enough));
    case 3:
        return std::unique_ptr<face<T>>(new face_mdr<T, 3>(sh, enough));
    case 4:
        return std::unique_ptr<face<T>>(new face_mdr<T, 4>(sh, enough));
    default:
        return std::unique_ptr<face<T>>(new face_mdr<T, 5>(sh, enough));
    }
#endif
}

template <typename T>
static void runscript(vh::in_t& in, char kind, int flag)
{
    session<T> s;
    s.sh   = in.list();
    s.real = kind == 'r';
    s.fmt  = !s.real ? CX : (PART == 0 && flag) ? Perm : CCs;
    rec("init").str("kind", std::string(1, kind)).list("shape", s.sh).out();
    s.f = make<T>(kind, PART != 0, flag, s.sh);
    s.script(in);
}

int main()
{
    vh::in_t in;
    while (in.line())
    {
        int v = (int)in.i();
        if (v == 9) // dispositions of all stage chains up to n
        {
            int n = (int)in.i();
            rec("init").str("kind", "c").list("shape", std::vector<int>{ 1 }).out();
            for (int k = 1; k <= n; ++k)
            {
                std::string d = "[";
                for (int m = 0; m < (1 << k); ++m)
                    for (int i = 0; i < 2; ++i)
                    {
                        auto r = dft_plan<double>::precompute_disposition(k, dft_plan<double>::bitset((unsigned)m), i == 1);
                        unsigned long long x = r.to_ullong();
                        d += (d.size() > 1 ? "," : "") + std::string("[") + std::to_string(k) + "," +
                             std::to_string(m) + "," + std::to_string(i) + "," + std::to_string(x > 1000000000ull ? 1000000000ull : x) + "]";
                    }
                rec r("disp");
                r.key("d");
                r.s += d + "]";
                r.out();
            }
            continue;
        }
        char kind = in.word()[0];
        int flag  = (int)in.i();
        if (v == 0)
            runscript<float>(in, kind, flag);
        else
            runscript<double>(in, kind, flag);
    }
}
