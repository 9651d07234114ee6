// Audio files; see spec/Wav.tla.  Script line: nops ops...
#include <kfr/base.hpp>
#include <kfr/io.hpp>
#include <memory>
#include <unistd.h>
#include "vh.hpp"
using namespace kfr;
using vh::rec;

using bytes_t = std::vector<uint8_t>;
// memory devices; position may be moved past the end, as in a file
struct mem_writer : abstract_writer<void>
{
    bytes_t& d;
    size_t cap, pos = 0;
    mem_writer(bytes_t& d, size_t cap) : d(d), cap(cap) {}
    size_t write(const void* p, size_t n) override
    {
        n = pos >= cap ? 0 : std::min(n, cap - pos);
        if (pos + n > d.size())
            d.resize(pos + n);
        if (n)
            memcpy(d.data() + pos, p, n);
        pos += n;
        return n;
    }
    imax tell() const override { return pos; }
    bool seek(imax o, seek_origin w) override
    {
        imax t = o + (w == seek_origin::begin ? 0 : w == seek_origin::end ? (imax)d.size() : (imax)pos);
        if (t < 0)
            return false;
        pos = t;
        return true;
    }
};
struct mem_reader : abstract_reader<void>
{
    const bytes_t& d;
    size_t pos = 0;
    mem_reader(const bytes_t& d) : d(d) {}
    size_t read(void* p, size_t n) override
    {
        n = pos >= d.size() ? 0 : std::min(n, d.size() - pos);
        if (n)
            memcpy(p, d.data() + pos, n);
        pos += n;
        return n;
    }
    imax tell() const override { return pos; }
    bool seek(imax o, seek_origin w) override
    {
        imax t = o + (w == seek_origin::begin ? 0 : w == seek_origin::end ? (imax)d.size() : (imax)pos);
        if (t < 0)
            return false;
        pos = t;
        return true;
    }
};

static long long code(long long k) { return (k * 7919 + 13) % 65535 - 32767; }
template <typename T> struct tname;
#define TN(t) template <> struct tname<t> { static constexpr const char* v = #t; }
TN(i16); TN(i24); TN(i32); TN(f32); TN(f64);
// 16-bit codes as samples and back; exact codes come back exactly, anything else to the nearest
template <typename T>
static T enc(long long c)
{
    if constexpr (std::is_floating_point_v<T>)
        return (T)c / 32768;
    else if constexpr (std::is_same_v<T, i16>)
        return (i16)c;
    else if constexpr (std::is_same_v<T, i24>)
        return i24((int)(c * 256));
    else
        return (T)c * (T)((T)1 << (8 * sizeof(T) - 16));
}
template <typename T>
static double level(T x)
{
    if constexpr (std::is_floating_point_v<T>)
        return (double)x * 32768;
    else if constexpr (std::is_same_v<T, i24>)
        return (double)x.as_int() / 256;
    else
        return (double)x / (double)((T)1 << (8 * sizeof(T) - 16));
}
template <>
double level<i8>(i8 x) { return x * 258.0; }
template <typename T>
static long long dec(T x, bool exact)
{
    double v = level(x);
    return exact ? vh::num(v) : vh::num(v, 0.51);
}

static audio_sample_type sample_type(const std::string& s)
{
    using t = audio_sample_type;
    return s == "i8" ? t::i8 : s == "i16" ? t::i16 : s == "i24" ? t::i24 : s == "i32" ? t::i32 : s == "i64" ? t::i64 : s == "f32" ? t::f32 : t::f64;
}
static const char* name_of(audio_sample_type t)
{
    static const char* n[] = { "unknown", "i8", "i16", "i24", "i32", "i64", "f32", "f64" };
    return n[(int)t];
}

static std::string dir;
static std::string path() { return dir + "/a.wav"; }
static bytes_t slurp(const std::string& p)
{
    bytes_t b;
    if (FILE* f = fopen(p.c_str(), "rb"))
    {
        uint8_t buf[65536];
        size_t n;
        while ((n = fread(buf, 1, sizeof buf, f)) > 0)
            b.insert(b.end(), buf, buf + n);
        fclose(f);
    }
    return b;
}

struct writer_base
{
    virtual ~writer_base() {}
    virtual void write(size_t n)    = 0;
    virtual void write_ch(size_t n) = 0;
    virtual size_t late()           = 0;
    virtual void close()            = 0;
    virtual long long len()         = 0;
};
template <typename T>
struct writer_t : writer_base
{
    std::unique_ptr<audio_writer_wav<T>> w;
    size_t off = 0, ch;
    writer_t(std::shared_ptr<abstract_writer<>> dev, const audio_format& f) : w(new audio_writer_wav<T>(std::move(dev), f)), ch(f.channels) {}
    void out(size_t n, size_t ret, bool ok)
    {
        rec("W").i("n", n).i("ret", ret).i("len", w->format().length).i("tell", w->tell()).b("ok", ok).out();
        off += n;
    }
    void write(size_t n) override
    {
        vh::guarded<T> g(n);
        for (size_t i = 0; i < n; ++i)
            g[i] = enc<T>(code(off + i + 1));
        auto copy  = g.raw;
        size_t ret = w->write(g.data(), n);
        out(n, ret, copy == g.raw);
    }
    void write_ch(size_t n) override
    {
        if constexpr (std::is_same_v<T, i24>) // no arrays of i24
            return write(n * ch);
        else
        {
        univector2d<T> d(ch, univector<T>(n, T(0)));
        for (size_t i = 0; i < n; ++i)
            for (size_t c = 0; c < ch; ++c)
                d[c][i] = enc<T>(code(off + i * ch + c + 1));
        size_t ret = w->write_channels(d);
        out(n * ch, ret * ch, true);
        }
    }
    size_t late() override
    {
        T x[16] = { T(0), T(0), T(0), T(0), T(0), T(0), T(0), T(0), T(0), T(0), T(0), T(0), T(0), T(0), T(0), T(0) };
        return w->write(x, 16);
    }
    void close() override { w->close(); }
    long long len() override { return w->format().length; }
};

struct reader_base
{
    virtual ~reader_base() {}
    virtual void read(size_t n)                 = 0;
    virtual void read_v(size_t n)               = 0;
    virtual void read_ch(size_t n)              = 0;
    virtual void seek(long long off, int origin) = 0;
};
static std::vector<i16> mp3ref;
static bool file_exact; // no conversion happened on the way into the file
template <typename T, typename R>
struct reader_t : reader_base
{
    R r;
    std::string src;
    bool exact;
    reader_t(std::shared_ptr<abstract_reader<>> dev, std::string src) : r(std::move(dev)), src(src)
    {
        const auto& f = r.format();
        exact         = f.type == audio_sample_traits<T>::type && file_exact;
        rec("O").str("t", tname<T>::v).i("len", vh::num((long long)f.length)).i("ch", f.channels).str("ft", name_of(f.type)).i("rate", (long long)f.samplerate).i("tell", r.tell()).out();
    }
    template <typename F>
    void out(size_t n, size_t ret, bool ok, long long pos, F get, size_t have)
    {
        rec x("R");
        std::vector<long long> c;
        bool same = true;
        if (src == "mp3")
        {
            for (size_t i = 0; i < have; ++i)
                same = same && (size_t)pos * 2 + i < mp3ref.size() && std::fabs(level(get(i)) - mp3ref[pos * 2 + i]) <= (exact ? 0 : 2);
        }
        else
            for (size_t i = 0; i < have; ++i)
                c.push_back(dec(get(i), exact));
        x.i("n", n).i("ret", ret).i("tell", r.tell()).b("ok", ok).b("same", same && have == ret).list("codes", c).out();
    }
    void read(size_t n) override
    {
        vh::guarded<T> g(n);
        long long pos = r.tell();
        size_t ret    = r.read(g.data(), n);
        out(n, ret, g.check(), pos, [&](size_t i) { return g[i]; }, std::min(ret, n));
    }
    void read_v(size_t n) override
    {
        if constexpr (std::is_same_v<T, i24>)
            return read(n);
        else
        {
        long long pos  = r.tell();
        univector<T> v = static_cast<abstract_reader<T>&>(r).read(n);
        out(n, v.size(), true, pos, [&](size_t i) { return v[i]; }, v.size());
        }
    }
    void read_ch(size_t n) override
    {
        if constexpr (std::is_same_v<T, i24>)
            return read((n == 1000 ? r.format().length : n) * r.format().channels);
        else
        {
        long long pos = r.tell();
        auto v        = n == 1000 ? r.read_channels() : r.read_channels(n);
        size_t ch     = v.size();
        bool ok       = true;
        for (auto& x : v)
            ok = ok && x.size() == v[0].size();
        size_t k = ch ? v[0].size() : 0;
        out(n == 1000 ? r.format().length * r.format().channels : n * r.format().channels, k * ch, ok, pos, [&](size_t i) { return v[i % ch][i / ch]; }, k * ch);
        }
    }
    void seek(long long off, int origin) override
    {
        imax o = off == 1000000 ? imax(1) << 62 : off == -1000000 ? -(imax(1) << 62) : off;
        bool b = r.seek(o, origin == 0 ? seek_origin::begin : origin == 1 ? seek_origin::current : seek_origin::end);
        rec("S").i("off", off).str("origin", origin == 0 ? "begin" : origin == 1 ? "current" : "end").b("ret", b).i("tell", r.tell()).out();
    }
};
template <typename T>
static reader_base* open_reader(const std::string& kind, std::shared_ptr<abstract_reader<>> dev)
{
    if (kind == "wav")
        return new reader_t<T, audio_reader_wav<T>>(std::move(dev), kind);
    if (kind == "flac")
        return new reader_t<T, audio_reader_flac<T>>(std::move(dev), kind);
    return new reader_t<T, audio_reader_mp3<T>>(std::move(dev), kind);
}

// ---- an uncompressed FLAC stream ----
struct bits_t
{
    bytes_t b;
    int n = 0;
    void put(uint64_t v, int k)
    {
        while (k--)
        {
            if (n % 8 == 0)
                b.push_back(0);
            b.back() |= ((v >> k) & 1) << (7 - n % 8);
            ++n;
        }
    }
};
static bytes_t make_flac(int ch, int bs, int n, std::vector<size_t>& ends)
{
    bits_t f;
    for (char c : std::string("fLaC"))
        f.put((uint8_t)c, 8);
    f.put(0x80, 8), f.put(34, 24), f.put(bs, 16), f.put(bs, 16), f.put(0, 24), f.put(0, 24), f.put(44100, 20), f.put(ch - 1, 3), f.put(15, 5), f.put(n, 36);
    for (int i = 0; i < 16; ++i)
        f.put(0, 8);
    bytes_t out = f.b;
    for (int fr = 0; fr * bs < n; ++fr)
    {
        int k = std::min(bs, n - fr * bs);
        bits_t b;
        b.put(0xFFF8, 16), b.put(6, 4), b.put(9, 4), b.put(ch - 1, 4), b.put(4, 3), b.put(0, 1), b.put(fr, 8), b.put(k - 1, 8);
        uint8_t c8 = 0;
        for (uint8_t x : b.b)
        {
            c8 ^= x;
            for (int i = 0; i < 8; ++i)
                c8 = c8 & 0x80 ? (c8 << 1) ^ 7 : c8 << 1;
        }
        b.put(c8, 8);
        for (int c = 0; c < ch; ++c)
        {
            b.put(2, 8);
            for (int i = 0; i < k; ++i)
                b.put((uint16_t)code((long long)(fr * bs + i) * ch + c + 1), 16);
        }
        uint16_t c16 = 0;
        for (uint8_t x : b.b)
        {
            c16 ^= x << 8;
            for (int i = 0; i < 8; ++i)
                c16 = c16 & 0x8000 ? (c16 << 1) ^ 0x8005 : c16 << 1;
        }
        b.put(c16, 16);
        out.insert(out.end(), b.b.begin(), b.b.end());
        ends.push_back(out.size());
    }
    return out;
}

static uint64_t le(const bytes_t& b, size_t p, int n)
{
    uint64_t v = 0;
    for (int i = n; i-- > 0;)
        v = v << 8 | (p + i < b.size() ? b[p + i] : 0);
    return v;
}
// fmt fields, data size and samples of a (possibly incomplete) file, read without the library
static void dump(rec& r, const bytes_t& b, bool w64, audio_sample_type t, size_t frame_bytes, bool same)
{
    size_t p = w64 ? 64 : 20;
    std::vector<long long> f = { (long long)le(b, p, 2), (long long)le(b, p + 2, 2), (long long)le(b, p + 4, 4), (long long)le(b, p + 8, 4), (long long)le(b, p + 12, 2), (long long)le(b, p + 14, 2) };
    r.list("fmt", f);
    size_t hdr = w64 ? 104 : 44;
    r.i("data", vh::num((long long)(w64 ? le(b, 96, 8) - 24 : le(b, 40, 4))));
    size_t sz = audio_sample_sizeof(t);
    size_t have = b.size() < hdr ? 0 : (b.size() - hdr);
    size_t ds   = w64 ? le(b, 96, 8) - 24 : le(b, 40, 4);
    if (ds)
        have = std::min(have, ds);
    have = have / frame_bytes * frame_bytes / sz;
    std::vector<long long> c;
    for (size_t i = 0; i < have; ++i)
    {
        const uint8_t* q = b.data() + hdr + i * sz;
        auto get = [&](auto x) { memcpy(&x, q, sizeof x); return x; };
        switch (t)
        {
        case audio_sample_type::i8: c.push_back(dec<i8>((i8)((int)*q - 128), same)); break;
        case audio_sample_type::i16: c.push_back(dec(get(i16(0)), same)); break;
        case audio_sample_type::i24: c.push_back(dec(get(i24(0)), same)); break;
        case audio_sample_type::i32: c.push_back(dec(get(i32(0)), same)); break;
        case audio_sample_type::i64: c.push_back(dec(get(i64(0)), same)); break;
        case audio_sample_type::f32: c.push_back(dec(get(f32(0)), same)); break;
        default: c.push_back(dec(get(f64(0)), same));
        }
    }
    r.list("codes", c);
}

static void run(vh::in_t& in)
{
    rec("init").out();
    bytes_t dev;
    std::unique_ptr<writer_base> w;
    std::unique_ptr<reader_base> r;
    std::string kind = "wav";
    audio_format fmt;
    bool real_file = false, same = false;
    for (size_t nops = in.i(); nops--;)
    {
        std::string op = in.word();
        if (op == "N")
        {
            std::string t = in.word(), ft = in.word();
            fmt            = {};
            fmt.type       = sample_type(ft);
            same           = t == ft;
            fmt.channels   = in.i();
            fmt.samplerate = in.i();
            fmt.use_w64    = in.i();
            real_file      = in.i();
            size_t cap     = in.i();
            dev.clear();
            std::shared_ptr<abstract_writer<>> d;
            if (real_file)
                d = open_file_for_writing(path());
            else
                d = std::make_shared<mem_writer>(dev, cap);
            if (t == "i16")
                w.reset(new writer_t<i16>(std::move(d), fmt));
            else if (t == "i24")
                w.reset(new writer_t<i24>(std::move(d), fmt));
            else if (t == "i32")
                w.reset(new writer_t<i32>(std::move(d), fmt));
            else if (t == "f32")
                w.reset(new writer_t<f32>(std::move(d), fmt));
            else
                w.reset(new writer_t<f64>(std::move(d), fmt));
            rec("N").str("t", t).str("ft", ft).i("ch", fmt.channels).i("rate", (long long)fmt.samplerate).i("w64", fmt.use_w64).i("cap", cap).i("len", w->len()).out();
        }
        else if (op == "W")
            w->write(in.i());
        else if (op == "Y")
            w->write_ch(in.i());
        else if (op == "E")
        {
            int k       = in.i();
            size_t cut  = in.i(), late = 0;
            if ((real_file || fmt.use_w64) && k == 2) // opening an unfinished W64 file takes dr_wav minutes
                k = 1;
            if (k == 0)
            {
                w->close();
                late = w->late();
            }
            bytes_t snap = dev;
            w.reset();
            if (k != 2)
                snap = real_file ? slurp(path()) : dev;
            rec e("E");
            e.i("kind", k).i("cut", cut).i("size", snap.size()).i("late", late);
            dump(e, snap, fmt.use_w64, fmt.type, fmt.channels * audio_sample_sizeof(fmt.type), same);
            e.out();
            snap.resize(snap.size() - std::min(snap.size(), cut));
            dev  = snap;
            kind = "wav";
            file_exact = same;
            if (real_file)
            {
                auto f = open_file_for_writing<u8>(path());
                f->write(dev.data(), dev.size());
            }
        }
        else if (op == "L")
        {
            int ch = in.i(), bs = in.i(), n = in.i();
            size_t cut = in.i();
            std::vector<size_t> ends;
            dev = make_flac(ch, bs, n, ends);
            dev.resize(dev.size() - std::min(dev.size(), cut));
            long long whole = 0;
            for (size_t i = 0; i < ends.size(); ++i)
                if (ends[i] <= dev.size())
                    whole = std::min<long long>(n, (i + 1) * bs);
            kind      = "flac";
            file_exact = true;
            real_file = false;
            rec("L").i("ch", ch).i("n", n).i("whole", whole).b("good", dev.size() >= 42).out();
        }
        else if (op == "M")
        {
            bool good = in.i();
            real_file = false;
            kind      = "mp3";
            file_exact = true;
            dev       = slurp(KFR_SRC_DIR "/tests/test-audio/sine.mp3");
            if (good)
            {
                audio_reader_mp3<i16> ref(std::make_shared<mem_reader>(dev));
                mp3ref.resize(ref.format().length * 2);
                mp3ref.resize(ref.read(mp3ref.data(), mp3ref.size()));
            }
            else
                dev.assign(100, 7);
            rec("M").i("n", mp3ref.size() / 2).b("good", good).out();
        }
        else if (op == "O")
        {
            std::string t = in.word();
            std::shared_ptr<abstract_reader<>> d;
            r.reset();
            if (real_file)
                d = open_file_for_reading(path());
            else
                d = std::make_shared<mem_reader>(dev);
            r.reset(t == "i16" ? open_reader<i16>(kind, d) : t == "i24" ? open_reader<i24>(kind, d) : t == "i32" ? open_reader<i32>(kind, d) : t == "f32" ? open_reader<f32>(kind, d) : open_reader<f64>(kind, d));
        }
        else if (op == "R")
            r->read(in.i());
        else if (op == "V")
            r->read_v(in.i());
        else if (op == "K")
            r->read_ch(in.i());
        else if (op == "S")
        {
            long long off = in.i();
            r->seek(off, in.i());
        }
    }
}
int main()
{
    char tmpl[] = "/tmp/vwavXXXXXX";
    dir         = mkdtemp(tmpl);
    vh::in_t in;
    while (in.line())
        run(in);
    unlink(path().c_str());
    rmdir(dir.c_str());
}
