// C01: SEG-Y samples survive write then read.
#include "segy_model.hpp"
using namespace segy;

static HMap const& small_map()
{
    static HMap const m = { { "SEG00000", { { 114, { "SAMP_NUM", VT::uint16_t } }, { 116, { "SAMP_INT", VT::int16_t } } } } };
    return m;
}

// boundary values, exactly representable in the format
static vector<double> exact_values(Fmt f)
{
    vector<double> v;
    if (f.is_int) {
        int bits = f.width * 8;
        if (bits <= 8 || bits == 16) {
            int64_t lo = f.is_signed ? -(1ll << (bits - 1)) : 0;
            for (int64_t i = 0; i < (1ll << bits); ++i) v.push_back((double)(lo + i));
            return v;
        }
        int top = f.is_signed ? bits - 1 : bits;
        v.push_back(0);
        for (int k = 0; k <= top; ++k)
            for (int d = -2; d <= 2; ++d) {
                long double x = ldexpl(1.0L, k) + d;
                double y = (double)x;
                if ((long double)y != x) continue;
                if (x >= 0 && x <= ldexpl(1.0L, top) - 1) v.push_back(y);
                if (f.is_signed && x >= 0 && x <= ldexpl(1.0L, top)) v.push_back(-y);
            }
        if (bits == 64) {
            v.push_back(nextafter(ldexp(1.0, top), 0));
            if (f.is_signed) v.push_back(-nextafter(ldexp(1.0, top), 0));
        }
        return v;
    }
    if (f.code == 1) {
        v.push_back(0);
        for (int e = -64; e <= 63; ++e)
            for (uint32_t fr : { 0x100000u, 0x100001u, 0x1fffffu, 0x200000u, 0x3fffffu, 0x400000u, 0x7fffffu, 0x800000u, 0xabcdefu, 0xfffffeu, 0xffffffu })
                for (uint32_t s : { 0u, 0x80000000u }) v.push_back(ibm_dec(s | (uint32_t)(e + 64) << 24 | fr));
        return v;
    }
    if (f.code == 5) {
        v.push_back(0);
        for (uint32_t e = 0; e <= 255; ++e)
            for (uint32_t m : { 0u, 1u, 0x2aaaaau, 0x400000u, 0x7fffffu })
                for (uint32_t s : { 0u, 0x80000000u }) v.push_back(u2f(s | e << 23 | (e == 255 && m ? 0x400000 : m)));
        return v;
    }
    for (uint64_t e = 0; e <= 2047; ++e)
        for (uint64_t m : { 0ull, 1ull, 0xfffffffffffffull })
            for (uint64_t s : { 0ull, 1ull << 63 }) v.push_back(u2d(s | e << 52 | (e == 2047 && m ? 1ull << 51 : m)));
    return v;
}
// values that have to be rounded
static vector<double> rounded_values(Fmt f)
{
    vector<double> v;
    if (f.code == 1)
        for (int e = -60; e <= 62; ++e)
            for (double m : { 1 + 0x1p-52, 1 - 0x1p-53, 1 + 0x1p-24, 1 + 0x1p-23, 1.5 + 0x1p-30, 1.99999999, 3.14159265358979, 7.000000001, 8 + 0x1p-20, 15.9999999999, 10.1 })
                for (int s : { 1, -1 }) v.push_back(s * ldexp(m, 4 * e));
    if (f.code == 5)
        for (int e = -140; e <= 120; ++e)
            for (double m : { 1 + 0x1p-52, 1 - 0x1p-53, 1 + 0x1p-24, 1 + 0x1.8p-24, 1 + 0x1.8p-23, 1.999999999, 1.1 })
                for (int s : { 1, -1 }) v.push_back(s * ldexp(m, e));
    return v;
}

static void check_values(Ctx& c, Fmt f, vector<double> const& want, vector<double> const& got, bool exact)
{
    if (got.size() < want.size()) c.fail(fmt("format %d: %zu samples read, %zu written", f.code, got.size(), want.size()));
    for (size_t i = 0; i < want.size(); ++i) {
        double w = want[i], g = got[i];
        bool ok;
        if (exact) ok = same(w, g);
        else if (f.code == 5) ok = same((double)(float)w, g);
        else ok = fabs(w - g) < fabs(w) * 0x1p-20;
        if (!ok) c.fail(fmt("format %d: sample %zu: wrote %.17g read %.17g", f.code, i, w, g));
    }
    for (size_t i = want.size(); i < got.size(); ++i)
        if (got[i] != 0) c.fail(fmt("format %d: padding sample %zu is %.17g", f.code, i, got[i]));
}

struct Cfg { int rev; int32_t endian; Fmt f; bool fixed; };
static Cfg cfg(Ctx& c)
{
    Cfg g;
    g.rev = c.pick(3);
    g.endian = c.of({ 0, LE, BE });
    g.f = c.of(formats());
    g.fixed = g.rev == 0 ? true : c.flag();
    return g;
}
static Bin bin_for(Cfg const& g, int32_t n, bool ext = false)
{
    Bin b = {};
    b.format_code = g.f.code;
    b.endianness = g.endian;
    b.fixed_tr_length = g.fixed && g.rev ? 1 : 0;
    if (ext) b.ext_samp_per_tr = n;
    else b.samp_per_tr = (int16_t)(uint16_t)n;
    b.samp_int = 2000;
    return b;
}
static void write_read(Ctx& c, Cfg const& g, Bin const& b, vector<vector<double>> const& traces, bool exact)
{
    string p = c.path("f.sgy");
    {
        Writer w(g.rev, p, {}, b, {}, small_map());
        for (auto& t : traces) {
            MTrace m;
            m.hdr["SAMP_NUM"] = (int64_t)t.size();
            m.hdr["SAMP_INT"] = (int64_t)2000;
            m.smp = t;
            w.write(m);
            c.step();
        }
    }
    sedaman::ISEGY r(p, small_map());
    for (size_t i = 0; i < traces.size(); ++i) {
        c.require(r.has_trace(), fmt("trace %zu of %zu is missing", i, traces.size()));
        Trace t = r.read_trace();
        c.step();
        if (!g.fixed) c.require(t.samples().size() == traces[i].size(), fmt("trace %zu: %zu samples read, %zu written", i, t.samples().size(), traces[i].size()));
        check_values(c, g.f, traces[i], t.samples(), exact);
        Hash h;
        h << g.f.code << g.endian << g.rev << g.fixed << (uint64_t)i << t.samples();
        c.state(h.h);
    }
    c.require(!r.has_trace(), "a trace remains after the last one");
}

// every boundary value (every value of the 8- and 16-bit formats), alone and at every position of a trace of them
static void values(Ctx& c)
{
    Cfg g = cfg(c);
    bool exact = c.flag();
    c.shard();
    vector<double> v = exact ? exact_values(g.f) : rounded_values(g.f);
    if (v.empty()) return;
    vector<vector<double>> tr;
    vector<double> rv(v.rbegin(), v.rend());
    size_t n = 0;
    for (auto* src : { &v, &rv })
        for (size_t i = 0; i < src->size(); i += 40000) {
            tr.emplace_back(src->begin() + i, src->begin() + std::min(src->size(), i + 40000));
            n = std::max(n, tr.back().size());
        }
    c.note(fmt("rev %d format %d endian %x fixed %d: %zu values", g.rev, g.f.code, (unsigned)g.endian, g.fixed, v.size()));
    write_read(c, g, bin_for(g, (int32_t)n), tr, exact);
}

// histories of trace lengths: up to 3 traces with lengths from a small set; patterns tell trace and position
static void lengths(Ctx& c)
{
    Cfg g = cfg(c);
    int n = c.pick(c.thorough() ? 5 : 4);
    c.shard();
    vector<vector<double>> tr;
    size_t mx = 0;
    static int const L[] = { 0, 1, 2, 3, 7 };
    for (int i = 0; i < n; ++i) {
        int l = L[c.pick(c.thorough() ? 5 : 4)];
        vector<double> v;
        for (int k = 0; k < l; ++k) v.push_back(1 + i * 16 + k);
        tr.push_back(v);
        mx = std::max(mx, v.size());
    }
    write_read(c, g, bin_for(g, (int32_t)mx), tr, true);
}

// sample counts around every limit of the 16-bit count, through the 16-bit and the extended field
static void big_lengths(Ctx& c)
{
    Cfg g = cfg(c);
    static int const L[] = { 1, 127, 128, 255, 256, 32767, 32768, 32769, 65535, 65536, 70000 };
    int l = c.of({ 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10 });
    bool ext = c.flag();
    c.shard();
    l = L[l];
    if (!ext && l > 65535) return;
    if (!g.fixed && l > 65535) return;
    vector<vector<double>> tr;
    for (int t = 0; t < 2; ++t) {
        vector<double> v(l);
        for (int i = 0; i < l; ++i) v[i] = (i * 31 + t) % 101;
        tr.push_back(v);
    }
    write_read(c, g, bin_for(g, l, ext), tr, true);
}

// no binary header given: everything is derived from the first trace
static void derived(Ctx& c)
{
    int rev = c.pick(3);
    int first = c.of({ 1, 2, 5, 300, 32767 });
    int n = 1 + c.pick(3);
    c.shard();
    Cfg g { rev, 0, fmt_of(rev ? 5 : 1), rev == 0 };
    vector<vector<double>> tr;
    for (int i = 0; i < n; ++i) {
        int l = i == 0 ? first : c.of({ first, 1, 0 });
        vector<double> v;
        for (int k = 0; k < l; ++k) v.push_back(1 + k % 200 + i);
        tr.push_back(v);
    }
    write_read(c, g, Bin {}, tr, true);
}

// no binary header given and a first trace of any length: a count that the file can not say has to be refused, any other is read back
static void derived_counts(Ctx& c)
{
    int rev = c.pick(3);
    int l = c.of({ 32766, 32767, 32768, 32769, 40000, 65534, 65535, 65536, 65537, 70000, 131072 });
    int n = 1 + c.pick(2);
    c.shard();
    Cfg g { rev, 0, fmt_of(rev ? 5 : 1), true };
    vector<vector<double>> tr;
    for (int t = 0; t < n; ++t) {
        vector<double> v(l);
        for (int i = 0; i < l; ++i) v[i] = (i * 31 + t) % 101;
        tr.push_back(v);
    }
    string p = c.path("f.sgy");
    size_t kept = 0;
    {
        Writer w(rev, p, {}, Bin {}, {}, small_map());
        for (auto& t : tr) {
            MTrace m;
            m.hdr["SAMP_NUM"] = (int64_t)t.size();
            m.hdr["SAMP_INT"] = (int64_t)2000;
            m.smp = t;
            try {
                w.write(m);
                ++kept;
            } catch (std::exception const&) { c.require(l > 32767, fmt("a trace of %d samples is refused", l)); }
            c.step();
        }
    }
    if (kept != 0 && kept != tr.size()) c.fail(fmt("revision %d: %zu of %zu traces of %d samples were taken", rev, kept, tr.size(), l));
    c.note(fmt("rev %d: %d samples: %s", rev, l, kept ? "kept" : "refused"));
    sedaman::ISEGY r(p, small_map());
    for (size_t i = 0; i < kept; ++i) {
        c.require(r.has_trace(), fmt("revision %d, %d samples: trace %zu of %zu is missing", rev, l, i, kept));
        Trace t = r.read_trace();
        c.step();
        c.require((int)t.samples().size() == l, fmt("revision %d: trace %zu: %zu samples read, %d written", rev, i, t.samples().size(), l));
        check_values(c, g.f, tr[i], t.samples(), true);
        Hash h;
        h << rev << l << (uint64_t)i << t.samples();
        c.state(h.h);
    }
    c.require(!r.has_trace(), fmt("revision %d, %d samples: a trace remains after the last one", rev, l));
}

// all values of the 24-bit formats
static void all24(Ctx& c)
{
    int rev = 1 + c.pick(2);
    int32_t e = c.of({ LE, BE });
    int code = c.of({ 7, 15 });
    int part = c.pick(64);
    c.shard();
    Cfg g { rev, e, fmt_of(code), true };
    vector<vector<double>> tr;
    int64_t lo = code == 7 ? -(1 << 23) : 0;
    for (int k = 0; k < 8; ++k) {
        vector<double> v(32768);
        for (int i = 0; i < 32768; ++i) v[i] = (double)(lo + part * 262144ll + k * 32768ll + i);
        tr.push_back(v);
    }
    write_read(c, g, bin_for(g, 32768), tr, true);
}

// IBM: every fraction of 24 bits would be 2^31 words; all combinations of exponent and the top 9 / bottom 3 fraction bits
static void ibm_dense(Ctx& c)
{
    int32_t e = c.of({ LE, BE });
    int ex = c.pick(128);
    c.shard();
    Cfg g { 1, e, fmt_of(1), true };
    vector<double> v;
    for (uint32_t hi = 32; hi < 512; ++hi)
        for (uint32_t lo : { 0u, 1u, 7u, 0x4000u, 0x7fffu })
            for (uint32_t s : { 0u, 0x80000000u }) v.push_back(ibm_dec(s | (uint32_t)ex << 24 | hi << 15 | lo));
    write_read(c, g, bin_for(g, (int32_t)v.size()), { v }, true);
}

int main(int argc, char** argv)
{
    return explore_main(argc, argv, { { "values", values }, { "lengths", lengths }, { "big_lengths", big_lengths }, { "derived", derived }, { "derived_counts", derived_counts },
        { "ibm_dense", ibm_dense }, { "all24", all24, true } });
}
