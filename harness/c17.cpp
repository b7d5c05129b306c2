// C17: SEG-D 2.1 writing and reading are inverse.
#include "segd_model.hpp"
using namespace segd;

struct Hdr {
    std::unordered_map<string, Value> m;
    void set(string const& k, Value v) { m[k] = v; }
};

static Shape shape(int format = 8058, int chans = 1, int n_ext = 1, int samples = 2)
{
    Shape s;
    s.format = format; s.chans = chans; s.n_ext = n_ext; s.samples = samples;
    return s;
}
// reads the record, writes it again: the same bytes
static void copy(Ctx& c, Record const& m, string const& what, ExtMap const& em = {})
{
    string in = c.path("in.sgd"), out = c.path("out.sgd"), b = m.bytes();
    spew(in, b);
    c.step(1 + m.tr.size());
    {
        Parts p(in, em);
        if (p.tr.size() != m.tr.size()) c.fail(what + fmt(": %zu traces were read instead of %zu", p.tr.size(), m.tr.size()));
        p.write(out);
    }
    string g = slurp(out);
    if (g != b) c.fail(what + ": written again: " + diff(b, g));
    Hash h;
    h << b;
    c.state(h.h);
}
// ------------------------------------------------------------------ headers
// first general header: every free digit and byte
static void gh1(Ctx& c)
{
    // half bytes that are free: everything but format code, counts and the extended record length
    int i = c.pick(54);
    int add = c.pick(3), bg = c.pick(3);
    c.shard();
    if ((i >= 4 && i < 8) || i == 22) return;
    Shape s = shape();
    s.add = add;
    Record m = canonical(s);
    static string const dig = "0123456789";
    for (int k = 0; k < 54 && bg; ++k)
        if (!((k >= 4 && k < 8) || k == 22 || k == 47 || k == 48 || k == 49)) set_nib(m.gh1, k, bg == 1 ? 9 : (k * 7 + 3) % 10);
    bool binary = i == 44 || i == 45 || (i >= 47 && i <= 49);
    int v = c.pick(binary ? 16 : 10);
    set_nib(m.gh1, i, v);
    // mantissa odd, or zero with the greatest exponent unused
    if (i == 49 || i == 48) if (!(m.gh1[24] & 1)) return;
    copy(c, m, fmt("general header 1 half byte %d = %d", i, v));
}
static void scans(Ctx& c)
{
    int e = c.pick(16), v = c.pick(128);
    c.shard();
    Record m = canonical(shape());
    set_nib(m.gh1, 47, e);
    m.gh1[24] = 2 * v + 1;
    copy(c, m, fmt("scans per block %d * 2^%d", 2 * v + 1, e));
}
// counts written beyond the two digits, numbers in their extended form
static void extended_forms(Ctx& c)
{
    bool file = c.flag(), len = c.flag(), counts = c.flag();
    uint32_t v = c.of<uint32_t>({ 1, 255, 256, 65535, 65536, 0xfffffe, 0xffffff });
    int extd = c.of({ 0, 1, 99, 100, 255, 256, 300 }), extl = c.of({ 0, 1, 99, 100, 300 });
    c.shard();
    Shape s = shape();
    s.extended = extd; s.external = extl; s.ext_counts = counts;
    Record m = canonical(s);
    if (file) { for (int k = 0; k < 4; ++k) set_nib(m.gh1, k, 15); set_be(m.gh2, 0, 3, v); }
    if (len) { for (int k = 51; k < 54; ++k) set_nib(m.gh1, k, 15); set_be(m.gh2, 14, 3, v); }
    copy(c, m, "extended forms");
}
static void gh2(Ctx& c)
{
    static vector<int> const at { 0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 18, 20, 21 };
    int i = c.of(at);
    int add = c.pick(3);
    c.shard();
    int v = c.pick(256);
    Shape s = shape();
    s.add = add;
    Record m = canonical(s);
    m.gh2[i] = v;
    copy(c, m, fmt("general header 2 byte %d = %d", i, v));
}
// further general headers: every byte of each, number of blocks
static void ghn(Ctx& c)
{
    int n = c.of({ 1, 2, 14 });
    int k = c.pick(n), i = c.pick(20);
    int bg = c.pick(n < 14 || c.thorough() ? 3 : 1);
    c.shard();
    Shape s = shape();
    s.add = n;
    int v = c.pick(256);
    Record m = canonical(s);
    if (i == 18 && n > 1) return;
    if (bg) for (int x = 0; x < 20; ++x) if (x != 18) m.add[k][x] = bg == 1 ? 0 : 0xff;
    m.add[k][i] = v;
    copy(c, m, fmt("further general header %d of %d byte %d = %d", k, n, i, v));
}
static void lines(Ctx& c)
{
    int field = c.pick(2);
    int64_t v = c.of<int64_t>({ 0, 1, -1, 255, -255, 65535, 65536, -65536, 98304, -98304, 0x7fffffffffll, -0x8000000000ll, 0x7fffff0000ll, -0x7fffff0001ll, 6553712345ll, -6553712345ll });
    c.shard();
    Shape s = shape();
    s.add = 1;
    for (int low = -300; low <= 300; ++low) {
        Record m = canonical(s);
        set_be(m.add[0], field ? 8 : 3, 5, v + low);
        copy(c, m, fmt("source number %lld/65536", (long long)v + low));
    }
}
// channel set header: every digit and byte
static void set_fields(Ctx& c)
{
    int i = c.pick(64);
    int nsets = 1 + c.pick(2), which = c.pick(nsets), bg = c.pick(3);
    c.shard();
    if (i == 21 || (i >= 16 && i < 20)) return;
    Shape s = shape(8058, 1, 1, 2);
    s.sets = nsets;
    int lim = (i < 4 || (i >= 16 && i < 52)) ? 10 : 16;
    if (i == 20 || i == 22 || i == 23) lim = 10;
    int v = c.pick(lim);
    Record m = canonical(s);
    string& h = m.sets[0][which];
    for (int k = 24; k < 64 && bg; ++k) set_nib(h, k, bg == 1 ? (k < 52 ? 9 : 15) : (k * 7 + 1) % 10);
    set_nib(h, i, v);
    // negative zero is no value of the descale exponent
    if (be(h, 6, 2) == 0x8000) return;
    // samples that stay in range with every scale
    for (auto& t : m.tr) t.bits = { 0x3f800000, 0xbfa00000 };
    if (i >= 12 && i < 16 && be(h, 6, 2) & 0x3ff) return;
    copy(c, m, fmt("channel set half byte %d = %d", i, v));
}
static void set_words(Ctx& c)
{
    int i = c.of({ 2, 4, 26, 28, 30 });
    int hi = c.pick(256);
    c.shard();
    Record m = canonical(shape());
    for (int lo = 0; lo < 256; lo += c.thorough() ? 1 : 17) {
        string& h = m.sets[0][0];
        h[i] = hi; h[i + 1] = lo;
        copy(c, m, fmt("channel set bytes %d = %02x%02x", i, hi, lo));
    }
}
// descale exponents: integers give back the bytes, others the values
static void descale(Ctx& c)
{
    int f = c.of(all_formats);
    int k = c.pick(64);
    c.shard();
    Shape s = shape(f, 1, 1, 5);
    Record m = canonical(s);
    int e = k - 32; // exponent
    set_be(m.sets[0][0], 6, 2, e < 0 ? 0x8000 | -e << 10 : e << 10);
    if (e < -31 || e > 31) return;
    copy(c, m, fmt("format %d descale exponent %d", f, e));
}
// every set of every scan type with a scale of its own
static void own_scales(Ctx& c)
{
    int scans = 1 + c.pick(c.thorough() ? 4 : 3), sets = 1 + c.pick(3);
    int f = c.of(all_formats);
    c.shard();
    Shape s = shape(f, 1, 1, 5);
    s.scans = scans; s.sets = sets; s.chans = 1 + c.pick(2);
    Record m = canonical(s);
    int n = scans * sets, turn = c.pick(n), sign = c.pick(2), step = 1 + c.pick(2);
    for (int k = 0; k < n; ++k) {
        int e = ((k + turn) % n) * step - (sign ? n : 0);
        set_be(m.sets[k / sets][k % sets], 6, 2, e < 0 ? 0x8000 | -e << 10 : e << 10);
    }
    copy(c, m, fmt("format %d, %d scan types of %d sets with scales of their own", f, scans, sets));
}
static void shapes(Ctx& c)
{
    Shape s;
    s.scans = 1 + c.pick(2); s.sets = 1 + c.pick(3); s.chans = c.pick(3); s.skew = c.pick(3);
    c.shard();
    s.extended = c.pick(3); s.external = c.pick(3); s.add = c.pick(3); s.n_ext = c.pick(3); s.ext_counts = c.flag();
    s.samples = c.of({ 1, 2, 8 });
    s.format = c.of({ 8015, 8036, 9058 });
    copy(c, canonical(s), "shape");
}
// numbers of channel sets and channels, general header blocks
static void large(Ctx& c)
{
    int kind = c.pick(4);
    int n = c.of({ 9, 10, 99, 100, 101, 255, 256, 300 });
    c.shard();
    Shape s = shape();
    if (kind == 0) s.sets = n;
    if (kind == 1) s.chans = n;
    if (kind == 2) { if (n > 99) return; s.scans = n; }
    if (kind == 3) { if (n > 99) return; s.skew = n; }
    s.n_ext = n % 3;
    copy(c, canonical(s), fmt("count %d of kind %d", n, kind));
}
// ------------------------------------------------------------------ trace headers
static void trace_digits(Ctx& c)
{
    static vector<int> const at { 0, 1, 2, 3, 8, 9, 10, 11 };
    int i = c.of(at);
    int ext = c.pick(3), bg = c.pick(2);
    c.shard();
    int v = c.pick(10);
    Record m = canonical(shape(8058, 2, ext));
    MTrace& t = m.tr[1];
    if (bg) for (int k : at) set_nib(t.hdr, k, 9);
    set_nib(t.hdr, i, v);
    canonical(t);
    copy(c, m, fmt("trace header half byte %d = %d", i, v));
}
static void trace_bytes(Ctx& c)
{
    static vector<int> const at { 6, 7, 8, 10, 11, 12, 13, 14 };
    int i = c.of(at);
    int bg = c.pick(3);
    c.shard();
    for (int v = 0; v < 256; ++v) {
        Record m = canonical(shape(8058, 2, v % 3));
        MTrace& t = m.tr[v % 2];
        if (bg) for (int k : at) t.hdr[k] = bg == 1 ? 0xff : 0;
        t.hdr[i] = v;
        copy(c, m, fmt("trace header byte %d = %d", i, v));
    }
}
// file numbers beyond four digits
static void file_number(Ctx& c)
{
    uint32_t v = c.of<uint32_t>({ 0, 1, 9, 10, 99, 100, 9998, 9999, 10000, 10001, 16664, 16665, 16666, 65535, 65536, 0xfffffe, 0xffffff });
    int ext = c.pick(3);
    c.shard();
    Record m = canonical(shape(8058, 1, ext));
    MTrace& t = m.tr[0];
    if (v > 9999) for (int k = 0; k < 4; ++k) set_nib(t.hdr, k, 15);
    else set_bcd(t.hdr, 0, 4, v);
    set_be(t.hdr, 17, 3, v);
    copy(c, m, fmt("file number %u", v));
}
// first extension: every byte of the line and point, index, sensor type
static void ext1(Ctx& c)
{
    int i = c.pick(8);
    int bg = c.pick(3), blocks = 1 + c.pick(3);
    c.shard();
    for (int v = 0; v < 256; ++v) {
        Record m = canonical(shape(8058, 2, blocks));
        MTrace& t = m.tr[1];
        for (int k = 0; k < 7 && bg; ++k) t.ext[0][k] = bg == 1 ? 0xff : 0;
        t.ext[0][i == 7 ? 20 : i] = v;
        canonical(t);
        copy(c, m, fmt("extension byte %d = %d", i == 7 ? 20 : i, v));
    }
}
// fractional lines and points: the short numbers hold the integer part
static void fractions(Ctx& c)
{
    int field = c.pick(2);
    uint32_t n = c.of<uint32_t>({ 0, 1, 2, 255, 65535, 65536, 0x7fffff, 0x800000, 0xffffff });
    int hi = c.pick(256);
    c.shard();
    for (int lo = 0; lo < 256; lo += c.thorough() ? 1 : 17) {
        Record m = canonical(shape());
        string& e = m.tr[0].ext[0];
        set_be(e, field ? 3 : 0, 3, n);
        set_be(e, field ? 15 : 10, 3, n);
        set_be(e, field ? 18 : 13, 2, hi << 8 | lo);
        copy(c, m, fmt("%s %u + %d/65536", field ? "point" : "line", n, hi << 8 | lo));
    }
}
static void samp_num(Ctx& c)
{
    int f = c.of({ 8058, 8015, 8042 });
    int n = c.of({ 0, 1, 2, 3, 4, 5, 7, 8, 255, 256, 257, 65535, 65536, 65537, 100000 });
    int ext = c.pick(3);
    c.shard();
    bool pow2 = n && !(n & (n - 1)) && n <= 512;
    if (!ext && !pow2) return;
    Shape s = shape(f, 2, ext, 1);
    Record m = canonical(s);
    if (!ext) { int e = 0; while (1 << e < n) ++e; set_nib(m.sets[0][0], 22, e); }
    for (auto& t : m.tr) {
        t.bits.clear();
        for (int i = 0; i < n; ++i) t.bits.push_back(some_canonical(f, i % 500));
        if (ext) set_be(t.ext[0], 7, 3, n);
    }
    if (ext) { m.tr[1].bits.resize(n / 2); set_be(m.tr[1].ext[0], 7, 3, n / 2); }
    copy(c, m, fmt("%d samples", n));
}
// ------------------------------------------------------------------ extension maps
static void quiet(VT t, string& b, int o)
{
    if (t == VT::ibm) { if (!canonical(8048, be(b, o, 4))) set_be(b, o, 4, 0x41123456); }
    if (t == VT::ieee_single && !canonical(8058, be(b, o, 4))) set_be(b, o, 4, 0x3f812345);
    if (t == VT::ieee_double && !canonical(8080, be(b, o, 8))) set_be(b, o, 8, 0x3ff1234512345123ull);
}
static void map_one(Ctx& c)
{
    VT t = (VT)c.pick(13);
    int blk = c.pick(3), off = c.pick(33 - vt_size(t));
    c.shard();
    int seed = c.pick(6);
    Record m = canonical(shape(8058, 1, 4));
    ExtMap em(blk + 1);
    em[blk][off] = { "FIELD", t };
    for (int k = 0; k < 4; ++k) {
        m.tr[0].ext[k] = seed < 4 ? filler(32, seed * 61 + k * 17) : string(32, seed == 4 ? '\xff' : '\x80');
        if (k == blk) quiet(t, m.tr[0].ext[k], off);
    }
    canonical(m.tr[0], em);
    copy(c, m, fmt("type %d at byte %d of extension %d", (int)t, off, blk + 1), em);
}
static void map_two(Ctx& c)
{
    VT t = (VT)c.pick(13), u = (VT)c.pick(13);
    int place = c.pick(3);
    c.shard();
    int gap = c.pick(3), seed = c.pick(3);
    int w = vt_size(t) + gap + vt_size(u);
    int off = place == 0 ? 0 : place == 1 ? 32 - w : 11;
    Record m = canonical(shape(8058, 1, 2));
    ExtMap em(2);
    em[0][off] = { "A", t }; em[0][off + vt_size(t) + gap] = { "B", u };
    em[1][off] = { "C", u }; em[1][off + vt_size(u) + gap] = { "D", t };
    for (size_t i = 0; i < 2; ++i) {
        string& e = m.tr[0].ext[i];
        e = filler(32, seed * 100 + i * 9);
        for (auto& f : em[i]) quiet(f.second.second, e, f.first);
    }
    canonical(m.tr[0], em);
    copy(c, m, "two fields", em);
}
static void map_values(Ctx& c)
{
    VT t = (VT)c.pick(13);
    int i = c.pick(8), bg = c.pick(4);
    c.shard();
    int n = vt_size(t);
    if (i >= n) return;
    for (int v = 0; v < 256; ++v) {
        Record m = canonical(shape());
        string& e = m.tr[0].ext[0];
        e = string(32, '\0');
        for (int k = 0; k < n; ++k) e[5 + k] = bg == 0 ? 0 : bg == 1 ? 0xff : bg == 2 ? 0x40 + k : 0x80;
        e[5 + i] = v;
        quiet(t, e, 5);
        copy(c, m, fmt("type %d", (int)t), ExtMap { { { 5u, { "FIELD", t } } } });
    }
}
// extensions against the map, count of samples in the map
static void blocks_and_maps(Ctx& c)
{
    int maps = 1 + c.pick(3), n = 1 + c.pick(3);
    c.shard();
    Shape s = shape(8058, n, 0, 2);
    ExtMap em(maps);
    for (int i = 0; i < maps; ++i) {
        em[i][4 * i] = { fmt("A%d", i), VT::uint16_t };
        em[i][20] = { fmt("B%d", i), VT::int32_t };
    }
    if (maps == 3) em[1].clear();
    int samp = c.pick(maps + 1);
    if (samp) em[samp - 1][28] = { "SAMP_NUM", VT::uint16_t };
    Record m = canonical(s);
    m.tr.clear();
    string what = fmt("map of %d blocks, extensions", maps);
    for (int i = 0; i < n; ++i) {
        int k = c.pick(5);
        what += fmt(" %d", k);
        vector<uint64_t> b { some_canonical(8058, i), some_canonical(8058, i + 9) };
        if (samp && k >= samp) b.resize(5, 0x3f800000 + i);
        MTrace t = make_trace(m, 1, 1, i + 1, b, k, i);
        if (samp && k >= samp) set_be(t.ext[samp - 1], 28, 2, 5);
        canonical(t, em);
        m.tr.push_back(t);
    }
    c.note(what);
    copy(c, m, what, em);
}
static void many(Ctx& c)
{
    int n = c.of({ 5, 15, 16, 17, 127, 128, 200, 255 });
    int maps = c.of({ 0, 1, 7, 255 });
    c.shard();
    ExtMap em(maps);
    for (int i = 0; i < maps; ++i) em[i][i % 25] = { fmt("F%d", i), VT::int64_t };
    copy(c, canonical(shape(8058, 2, n), em), fmt("%d extensions, map of %d", n, maps), em);
}
static void sercel(Ctx& c)
{
    int k = c.pick(3), seed = c.pick(20);
    c.shard();
    ExtMap em = k == 0 ? CommonSEGD::sercel_428xl : k == 1 ? CommonSEGD::sercel_428 : CommonSEGD::sercel_408;
    int n = c.pick((int)em.size() + 2);
    Record m = canonical(shape(8058, 1, n));
    MTrace& t = m.tr[0];
    for (size_t i = 0; i < t.ext.size(); ++i) {
        t.ext[i] = filler(32, seed * 53 + i * 7);
        if (i < em.size()) for (auto& f : em[i]) {
            quiet(f.second.second, t.ext[i], f.first);
            if (f.second.first == "SAMP_NUM") set_be(t.ext[i], f.first, vt_size(f.second.second), 2);
        }
    }
    canonical(t, em);
    copy(c, m, fmt("predefined map %d", k), em);
}
// ------------------------------------------------------------------ samples
// values of all patterns; patterns in canonical form give the same bytes, others the same value in canonical form
static void pattern_block(Ctx& c, int f, vector<uint64_t> const& bits, string const& what)
{
    Record m = canonical(shape(f, 1, 1, 1));
    MTrace& t = m.tr[0];
    t.bits = bits;
    set_be(t.ext[0], 7, 3, bits.size());
    string in = c.path("in.sgd"), out = c.path("out.sgd"), out2 = c.path("out2.sgd");
    spew(in, m.bytes());
    Parts p(in);
    p.write(out);
    c.step(4);
    string b = slurp(out), head = m.bytes();
    size_t at = head.size() - enc_samples(f, bits).size();
    if (b.size() != head.size()) c.fail(what + fmt(": %zu bytes instead of %zu", b.size(), head.size()));
    if (b.compare(0, at, head, 0, at)) c.fail(what + ": headers differ");
    Parts q(out);
    if (q.tr.size() != 1) c.fail(what + ": no trace");
    auto &x = p.tr[0].samples(), &y = q.tr[0].samples();
    int w = fmt_bits(f);
    for (size_t i = 0; i < bits.size(); ++i) {
        if (!same(x[i], y[i])) c.fail(what + fmt(": pattern %llx = %.17g reads back as %.17g", (unsigned long long)bits[i], x[i], y[i]));
        if (f != 8015 && canonical(f, bits[i]) && b.compare(at + i * w / 8, w / 8, head, at + i * w / 8, w / 8))
            c.fail(what + fmt(": pattern %llx is written as ", (unsigned long long)bits[i]) + hex(b.substr(at + i * w / 8, w / 8)));
    }
    if (f == 8015) {
        bool all = true;
        for (auto v : bits) all &= canonical(f, v);
        if (all && b != head) c.fail(what + ": " + diff(head, b));
    }
    q.write(out2);
    if (slurp(out2) != b) c.fail(what + ": written a third time: " + diff(b, slurp(out2)));
    Hash h;
    h << b;
    c.state(h.h);
}
static void patterns(Ctx& c)
{
    int f = c.of({ 8022, 8042, 8024, 8044 });
    int part = c.pick(16);
    c.shard();
    vector<uint64_t> b;
    uint64_t n = 1ull << fmt_bits(f);
    for (uint64_t i = n / 16 * part; i < n / 16 * (part + 1); ++i) b.push_back(i);
    pattern_block(c, f, b, fmt("format %d", f));
}
static void patterns_group(Ctx& c)
{
    int e = c.pick(16), pos = c.pick(4), canon = c.pick(2), part = c.pick(4);
    c.shard();
    vector<uint64_t> b;
    for (int w = part * 16384; w < (part + 1) * 16384; w += c.thorough() ? 1 : 1 + pos) {
        uint64_t v = (uint64_t)e << 16 | w;
        if (canon && !canonical(8015, v)) continue;
        for (int k = 0; k < 4; ++k) b.push_back(k == pos ? v : canon ? some_canonical(8015, k + 4 * (w % 11)) : some_bits(8015, k + w % 1000));
    }
    if (b.empty()) return;
    pattern_block(c, 8015, b, "format 8015");
}
static void patterns_24(Ctx& c)
{
    int f = c.of({ 8036, 9036 });
    int hi = c.pick(256);
    c.shard();
    vector<uint64_t> b;
    for (int i = 0; i < 65536; i += c.thorough() ? 1 : 7) b.push_back((uint64_t)hi << 16 | i);
    b.push_back((uint64_t)hi << 16 | 0xffff);
    pattern_block(c, f, b, fmt("format %d", f));
}
static void patterns_wide(Ctx& c)
{
    int f = c.of({ 8038, 9038, 8048, 8058, 9058, 8080, 9080 });
    int hi = c.pick(256);
    int part = c.pick(c.thorough() ? 16 : 1);
    c.shard();
    vector<uint64_t> b;
    int w = fmt_bits(f);
    for (int second = part; second < 256; second += c.thorough() ? 16 : 1)
        for (int rest = 0; rest < 12; ++rest) {
            uint64_t low = rest < 6 ? (uint64_t[]) { 0, 1, ~0ull, 0x8080808080808080ull, 0x0123456789abcdefull, 0xfedcba9876543210ull }[rest] : 0x9e3779b97f4a7c15ull * (rest + 12 * second + 3072 * hi);
            b.push_back(((uint64_t)hi << (w - 8) | (uint64_t)second << (w - 16)) | (low & ((1ull << (w - 16)) - 1)));
        }
    pattern_block(c, f, b, fmt("format %d", f));
}
// any value in range is stored as the nearest value of the format
static double nearest_err(int f, double x)
{
    // half of the step between the values of the format around x
    auto step = [&](int base, int max_exp, int bits) {
        for (int e = 0; e <= max_exp; ++e) if (fabs(x) <= pow(base, e) * (1 - ldexp(1, -bits))) return pow(base, e) * ldexp(1, -bits) / 2;
        return pow(base, max_exp) * ldexp(1, -bits) / 2;
    };
    switch (f) {
    case 8015: return step(2, 15, 14);
    case 8022: return step(4, 7, 4);
    case 8024: return step(4, 7, 12);
    case 8042: return step(16, 3, 5);
    case 8044: return step(16, 3, 13);
    case 8048: { int e = -64; while (ldexp(1, 4 * e) * (1 - ldexp(1, -24)) < fabs(x)) ++e; return ldexp(1, 4 * e - 25); }
    case 8058: case 9058: return fmax(fabs(x) * ldexp(1, -24), ldexp(1, -150));
    case 8080: case 9080: return 0;
    default: return 0.5;
    }
}
static double max_value(int f)
{
    switch (f) {
    case 8015: return 32768 * (1 - ldexp(1, -14));
    case 8022: return 16384 * (1 - ldexp(1, -4));
    case 8024: return 16384 * (1 - ldexp(1, -12));
    case 8042: return 4096 * (1 - ldexp(1, -5));
    case 8044: return 4096 * (1 - ldexp(1, -13));
    case 8036: case 9036: return 0x7fffff;
    case 8038: case 9038: return 0x7fffffff;
    case 8048: return ldexp(1, 252) * (1 - ldexp(1, -24));
    case 8058: case 9058: return ldexp(1, 128) * (1 - ldexp(1, -24));
    default: return 1e300;
    }
}
static void values(Ctx& c)
{
    int f = c.of(all_formats);
    int e = c.pick(64);
    int ds = c.pick(5);
    c.shard();
    // exponent e - 32 and what lies around its multiples; descale exponent (in 1/1024)
    static int const d1024[] = { 0, 1024, 0x8000 | 3072, 512, 0x8000 | 1 };
    Record m = canonical(shape(f, 1, 1, 1));
    set_be(m.sets[0][0], 6, 2, d1024[ds]);
    double scale = pow(2, (d1024[ds] & 0x8000 ? -1 : 1) * (d1024[ds] & 0x7fff) / 1024.0);
    vector<double> v;
    int steps = c.thorough() ? 4096 : 256;
    for (int k = 0; k < steps; ++k) {
        double x = ldexp(1.0 + (double)k / steps, e - 32);
        for (double y : { x, nextafter(x, 0), nextafter(x, 1e300), x + 0.5, x * (1 + 1e-6) })
            for (double s : { 1.0, -1.0 }) if (fabs(y) <= max_value(f)) v.push_back(y * s * scale);
    }
    v.push_back(0); v.push_back(max_value(f) * scale); v.push_back(-max_value(f) * scale);
    if (v.size() > 20000) v.resize(20000);
    string in = c.path("in.sgd"), out = c.path("out.sgd");
    spew(in, m.bytes());
    Parts p(in);
    Hdr nh;
    for (auto& k : p.tr[0].header().keys()) nh.set(k, *p.tr[0].header().get(k));
    nh.set("SAMP_NUM", (int64_t)v.size());
    p.tr[0] = Trace(std::move(nh.m), vector<double>(v));
    p.write(out);
    c.step(3);
    Parts q(out);
    auto& y = q.tr[0].samples();
    if (y.size() != v.size()) c.fail(fmt("%zu samples instead of %zu", y.size(), v.size()));
    Hash h;
    h << f << ds << e;
    for (size_t i = 0; i < v.size(); ++i) {
        double x = v[i] / scale, lim = nearest_err(f, x);
        double slack = d1024[ds] % 1024 ? fabs(x) * 1e-15 : 0;
        double err = fabs(y[i] / scale - x);
        if (!(err <= lim + slack)) c.fail(fmt("format %d scale %.17g: %.17g reads back as %.17g, error %.3g units above %.3g", f, scale, v[i], y[i], err, lim));
        h << y[i];
    }
    c.state(h.h);
}
// ------------------------------------------------------------------ traces built by the user
// integers for real headers, optional headers missing
static void user_headers(Ctx& c)
{
    int skip = c.pick(9), ints = c.pick(8), ext = c.pick(2), second = c.pick(2);
    c.shard();
    static char const* const names[] = { "FFID", "SCAN_TYPE_NUM", "CH_SET_NUM", "CHAN", "FIRST_TIMING_WORD", "SAMPLE_SKEW", "TRACE_EDIT", "TIME_BREAK_WIN" };
    static int const off[] = { 0, 4, 6, 8, 12, 20, 22, 24 }, len[] = { 4, 2, 2, 4, 6, 2, 2, 6 };
    Record m = canonical(shape(8058, 2, ext));
    vector<Trace> ts;
    for (int i = 0; i < 2; ++i) {
        bool plain = second && i == 0;
        MTrace& t = m.tr[i];
        Hdr h;
        for (int k = 0; k < 8; ++k) {
            int64_t v = k == 1 || k == 2 ? 1 : k == 3 ? i + 1 : 3 + k;
            bool real = k == 4 || k == 5 || k == 7;
            int bit = k == 4 ? 1 : k == 5 ? 2 : 4;
            if (!plain && k == skip) { // absent: 0, the first channel set
                if (k == 1 || k == 2) set_bcd(t.hdr, off[k], len[k], 1);
                else for (int q = 0; q < len[k]; ++q) set_nib(t.hdr, off[k] + q, 0);
                continue;
            }
            if (real) {
                if (ints & bit) { if (k == 5) v = 0; h.set(names[k], v); set_be(t.hdr, off[k] / 2, len[k] / 2, v << 8); }
                else { h.set(names[k], v / 256.0); set_be(t.hdr, off[k] / 2, len[k] / 2, v); }
            } else {
                h.set(names[k], v);
                if (k == 6) t.hdr[11] = v; else set_bcd(t.hdr, off[k], len[k], v);
            }
        }
        if (ext || !(skip == 8)) h.set("TR_HDR_EXT", (int64_t)ext);
        if (ext) { h.set("R_LINE", (int64_t)10); h.set("R_POINT", 20.5); h.set("SENSOR_TYPE", (int64_t)7);
            string& e = t.ext[0];
            e = string(32, '\0');
            set_be(e, 0, 3, 10); set_be(e, 3, 3, 20); set_be(e, 7, 3, 2); set_be(e, 10, 3, 10); set_be(e, 15, 3, 20); set_be(e, 18, 2, 0x8000); e[20] = 7; }
        set_be(t.hdr, 17, 3, bcd(t.hdr, 0, 4));
        ts.emplace_back(std::move(h.m), vector<double> { dec_sample(8058, t.bits[0]), dec_sample(8058, t.bits[1]) });
    }
    string in = c.path("in.sgd"), out = c.path("out.sgd");
    spew(in, m.bytes());
    Parts p(in, {}, 0);
    p.tr = ts;
    p.write(out);
    c.step(3);
    if (slurp(out) != m.bytes()) c.fail("trace of the user: " + diff(m.bytes(), slurp(out)));
    Hash h;
    h << m.bytes();
    c.state(h.h);
}
// values of every type in mapped fields: integers for real types too
static void user_map(Ctx& c)
{
    VT t = (VT)c.pick(13);
    c.shard();
    int off = c.pick(33 - vt_size(t));
    int64_t v = c.of<int64_t>({ 0, 1, -1, 100, -100, 127, -128 });
    if (v < 0 && (t == VT::uint8_t || t == VT::uint16_t || t == VT::uint24_t || t == VT::uint32_t)) return;
    Record m = canonical(shape(8058, 1, 1));
    MTrace& tr = m.tr[0];
    tr.ext[0] = string(32, '\0');
    ExtMap em(1);
    em[0][off] = { "FIELD", t };
    string in = c.path("in.sgd"), out = c.path("out.sgd");
    spew(in, m.bytes());
    Parts p(in, em);
    p.tr[0].header().set("FIELD", v);
    p.write(out);
    c.step(3);
    Parts q(out, em);
    Value want = v;
    if (t == VT::ibm || t == VT::ieee_single || t == VT::ieee_double) want = (double)v;
    auto g = q.tr[0].header().get("FIELD");
    if (!g || !equal(*g, want)) c.fail(fmt("type %d at %d: %lld reads back as ", (int)t, off, (long long)v) + (g ? str(*g) : "nothing"));
    string b = slurp(out), w = m.bytes();
    if (b.size() != w.size()) c.fail(diff(w, b));
    size_t at = w.size() - 8 - 32 + off;
    for (size_t i = 0; i < b.size(); ++i) if ((i < at || i >= at + vt_size(t)) && b[i] != w[i]) c.fail("byte outside of the field: " + diff(w, b));
    Hash h;
    h << b;
    c.state(h.h);
}
// ------------------------------------------------------------------ refusals
// sequences of acceptable and refused traces around the declared number: the file holds exactly the accepted ones
static void sequences(Ctx& c)
{
    int scans = 1 + c.pick(2), chans = c.pick(3), ext = c.pick(2);
    int first = c.pick(6);
    c.shard();
    Shape s = shape(8058, chans, ext);
    s.scans = scans;
    Record m = canonical(s);
    int declared = scans * chans, len = declared + (declared < 4 || c.thorough() ? 2 : 1);
    m.tr.clear();
    string in = c.path("in.sgd"), out = c.path("out.sgd");
    spew(in, m.bytes());
    Parts p(in, {}, 0);
    string log;
    {
        auto w = p.open(out);
        for (int i = 0; i < len; ++i) {
            int kind = i ? c.pick(6) : first;
            log += "gsczxn"[kind];
            int scan = kind == 5 && scans > 1 ? 2 : 1;
            vector<uint64_t> b { some_canonical(8058, i), some_canonical(8058, i + 7) };
            MTrace t = make_trace(m, scan, 1, i + 1, b, ext, i);
            canonical(t);
            vector<double> v;
            for (auto x : b) v.push_back(dec_sample(8058, x));
            Hdr h;
            for (auto& k : dec_trace_hdr(2, t, {})) h.set(k.first, k.second);
            bool ok = (int)m.tr.size() < declared;
            switch (kind) {
            case 1: h.set("SAMP_NUM", (int64_t)3); ok = false; break;
            case 2: h.set("CH_SET_NUM", (int64_t)(i % 3 == 0 ? 0 : i % 3 == 1 ? 2 : -1)); ok = false; break;
            case 3: h.set("SCAN_TYPE_NUM", (int64_t)(scans + 1)); ok = false; break;
            case 4: v.push_back(1); if (!ext || h.m.count("SAMP_NUM")) ok = false; break;
            }
            Trace tr(std::move(h.m), std::move(v));
            bool refused = false;
            try { w->write_trace(tr); } catch (std::exception&) { refused = true; }
            c.step();
            if (refused == ok) c.fail(log + (ok ? ": a valid trace is refused" : ": an invalid trace is accepted"));
            if (ok) m.tr.push_back(t);
            Hash st;
            st << scans << chans << ext << (int)m.tr.size() << i << kind;
            c.state(st.h);
        }
    }
    if (slurp(out) != m.bytes()) c.fail(log + ": " + diff(m.bytes(), slurp(out)));
    c.note(log);
}
// traces that fail half-way: a mapped header is missing or a value is of the wrong kind. Whatever is refused leaves no
// bytes, whatever is accepted is stored as a whole trace
static void half_way(Ctx& c)
{
    static ExtMap const maps[] { {}, { { { 0u, { "A", VT::int32_t } }, { 20u, { "SAMP_NUM", VT::uint16_t } } }, { { 24u, { "B", VT::ieee_double } }, { 3u, { "C", VT::uint8_t } } } } };
    int k = c.pick(2), n_ext = k ? 2 : 1 + c.pick(2), chans = 1 + c.pick(3);
    c.shard();
    ExtMap const& em = maps[k];
    Shape s = shape(8058, chans, n_ext);
    Record m = canonical(s, em);
    if (k) for (auto& t : m.tr) { set_be(t.ext[0], 20, 2, t.bits.size()); set_be(t.ext[1], 24, 8, 0x3ff0000000000001ull); canonical(t, em); }
    string in = c.path("in.sgd"), out = c.path("out.sgd"), log;
    spew(in, m.bytes());
    Parts p(in, em);
    Record kept = m;
    kept.tr.clear();
    static vector<string> const names[] { { "FFID", "CHAN", "TRACE_EDIT", "TR_HDR_EXT", "R_POINT_IDX", "SAMP_NUM", "SENSOR_TYPE", "SCAN_TYPE_NUM", "CH_SET_NUM" }, { "FFID", "A", "B", "C", "SAMP_NUM", "TR_HDR_EXT" } };
    {
        auto w = p.open(out);
        // each trace is first tried with something wrong, in every order of what is wrong
        for (int i = 0; i < chans; ++i) {
            string const& name = c.of(names[k]);
            int how = c.pick(2);
            Hdr h;
            auto& g = p.tr[i].header();
            for (auto& q : g.keys()) if (how || q != name) h.set(q, *g.get(q));
            if (how) h.set(name, 0.5);
            log += (how ? " real " : " no ") + name;
            Trace bad(h.m, vector<double>(p.tr[i].samples()));
            // what is accepted cannot be predicted without the missing value: only refusals are followed
            bool refused = false;
            {
                // on a writer of its own first
                auto v = p.open(c.path("try.sgd"));
                try { v->write_trace(bad); } catch (std::exception&) { refused = true; }
                c.step();
            }
            size_t size = slurp(c.path("try.sgd")).size();
            Record none = m;
            none.tr.clear();
            if (refused ? size != none.bytes().size() : size <= none.bytes().size()) c.fail(log + fmt(": %s trace leaves %zu bytes", refused ? "refused" : "accepted", size - none.bytes().size()));
            if (refused) {
                bool again = false;
                try { w->write_trace(bad); } catch (std::exception&) { again = true; }
                if (!again) c.fail(log + ": accepted by another writer");
            }
            w->write_trace(p.tr[i]);
            kept.tr.push_back(m.tr[i]);
            c.step(2);
        }
    }
    if (slurp(out) != kept.bytes()) c.fail(log + ": " + diff(kept.bytes(), slurp(out)));
    c.state(log);
    c.note(log);
}
// headers that contradict the counts
// every kind of block of another revision in place of a further general header
template <class T> static std::shared_ptr<CommonSEGD::AdditionalGeneralHeader> blk() { return std::make_shared<T>(); }
static void foreign_blocks(Ctx& c)
{
    using S = CommonSEGD;
    static vector<std::shared_ptr<S::AdditionalGeneralHeader> (*)()> const mk { blk<S::GeneralHeaderVes>, blk<S::GeneralHeaderSur>, blk<S::GeneralHeaderCli>, blk<S::GeneralHeaderJob>,
        blk<S::GeneralHeaderLin>, blk<S::GeneralHeaderVib>, blk<S::GeneralHeaderExp>, blk<S::GeneralHeaderAir>, blk<S::GeneralHeaderWat>, blk<S::GeneralHeaderEle>, blk<S::GeneralHeaderOth>,
        blk<S::GeneralHeaderAdd>, blk<S::GeneralHeaderSaux>, blk<S::GeneralHeaderSen>, blk<S::GeneralHeaderSCa>, blk<S::GeneralHeaderTim>, blk<S::GeneralHeaderElSR>, blk<S::GeneralHeaderPos1>,
        blk<S::GeneralHeaderPos2>, blk<S::GeneralHeaderPos3>, blk<S::GeneralHeaderCoord>, blk<S::GeneralHeaderRel>, blk<S::GeneralHeaderOri>, blk<S::GeneralHeaderMeas> };
    int k = c.pick((int)mk.size()), add = 1 + c.pick(2), at = c.pick(add);
    c.shard();
    Shape s = shape();
    s.add = add;
    Record m = canonical(s);
    string in = c.path("in.sgd"), out = c.path("out.sgd");
    spew(in, m.bytes());
    Parts p(in);
    p.add[at] = mk[k]();
    bool refused = false;
    c.step();
    try { p.write(out); } catch (std::exception&) { refused = true; }
    if (!refused) c.fail(fmt("block of kind %d in place of general header %d is accepted", k, at));
    c.state(k * 10 + add * 2 + at);
}
static void contradictions(Ctx& c)
{
    int what = c.pick(8);
    int a = c.pick(3), b = c.pick(3);
    bool big = c.flag();
    c.shard();
    Shape s = shape();
    s.scans = 2; s.sets = 2; s.extended = a; s.external = b; s.add = 2; s.ext_counts = big;
    Record m = canonical(s);
    string in = c.path("in.sgd"), out = c.path("out.sgd");
    spew(in, m.bytes());
    Parts p(in);
    int dir = c.pick(2);
    switch (what) {
    case 0: if (dir) p.sets.push_back(p.sets[0]); else p.sets.pop_back(); break;
    case 1: if (dir) p.sets[a % 2].push_back(p.sets[0][0]); else p.sets[a % 2].pop_back(); break;
    case 2: if (dir) p.extended.push_back(vector<char>(32)); else { if (!a) return; p.extended.pop_back(); } break;
    case 3: if (dir) p.external.push_back(vector<char>(32)); else { if (!b) return; p.external.pop_back(); } break;
    case 4: if (dir) { auto n = std::make_shared<CommonSEGD::GeneralHeaderN>(*dynamic_cast<CommonSEGD::GeneralHeaderN*>(p.add[0].get())); n->gen_hdr_block_num = 9; p.add.push_back(n); } else p.add.pop_back(); break;
    case 5: if (!a) return; p.extended[a - 1].resize(dir ? 33 : 31); break;
    case 6: if (!b) return; p.external[b - 1].resize(dir ? 33 : 31); break;
    case 7: break; // nothing wrong
    }
    bool refused = false;
    c.step();
    try { p.write(out); } catch (std::exception&) { refused = true; }
    if (refused != (what != 7)) c.fail(fmt("contradiction %d/%d with %d extended, %d external blocks is %s", what, dir, a, b, refused ? "refused" : "accepted"));
    Hash h;
    h << what << a << b << dir << big;
    c.state(h.h);
}
// unsupported format codes and maps outside the block
static void unsupported(Ctx& c)
{
    int kind = c.pick(2);
    c.shard();
    Record m = canonical(shape());
    string in = c.path("in.sgd"), out = c.path("out.sgd");
    spew(in, m.bytes());
    Parts p(in);
    auto tried = [&] { bool r = false; c.step(); try { p.open(out); } catch (std::exception&) { r = true; } return r; };
    if (kind == 0) {
        for (int f = 0; f < 10000; ++f) {
            p.gh.format_code = f;
            bool known = std::find(all_formats.begin(), all_formats.end(), f) != all_formats.end();
            if (tried() == known) c.fail(fmt("format code %d is %s", f, known ? "refused" : "accepted"));
            c.state(f);
        }
    } else {
        for (int t = 0; t < 13; ++t) for (int a = 0; a < 34; ++a) for (int b = a + 1; b < 36; ++b) for (int u : { 0, t, 12 }) {
            ExtMap em(1);
            em[0][a] = { "A", (VT)t }; em[0][b] = { "B", (VT)u };
            p.map = em;
            bool ok = a + vt_size((VT)t) <= b && b + vt_size((VT)u) <= 32;
            if (tried() == ok) c.fail(fmt("map with types %d at %d and %d at %d is %s", t, a, u, b, ok ? "refused" : "accepted"));
            c.state(((t * 64ull + a) * 64 + b) * 16 + u + 100000);
        }
    }
}
// numbers of scan types and channel sets: accepted exactly when the record has them
static void bad_sets(Ctx& c)
{
    static vector<int64_t> const nums { -2, -1, 0, 1, 2, 3, 4, 99, 100, 255, 256, 257, 65535, 65536, 65537, 1ll << 32, (1ll << 32) + 1, INT64_MIN, INT64_MIN + 1, INT64_MAX };
    int scans = 1 + c.pick(3), sets = 1 + c.pick(3), before = c.pick(2), ext = c.pick(2);
    c.shard();
    int64_t scan = c.of(nums), set = c.of(nums);
    Shape s = shape(8058, 2, ext);
    s.scans = scans; s.sets = sets;
    Record m = canonical(s);
    m.tr.clear();
    string in = c.path("in.sgd"), out = c.path("out.sgd");
    spew(in, m.bytes());
    Parts p(in, {}, 0);
    bool ok = scan >= 1 && scan <= scans && set >= 1 && set <= sets, refused = false;
    {
        auto w = p.open(out);
        auto give = [&](int64_t a, int64_t b, int ch, bool good) {
            vector<uint64_t> bits { some_canonical(8058, ch), some_canonical(8058, ch + 5) };
            MTrace t = make_trace(m, good ? a : 1, good ? b : 1, ch, bits, ext, ch);
            canonical(t);
            Hdr h;
            for (auto& k : dec_trace_hdr(2, t, {})) h.set(k.first, k.second);
            if (!good) { h.set("SCAN_TYPE_NUM", a); h.set("CH_SET_NUM", b); }
            Trace tr(std::move(h.m), vector<double> { dec_sample(8058, bits[0]), dec_sample(8058, bits[1]) });
            c.step();
            w->write_trace(tr);
            m.tr.push_back(t);
        };
        if (before) give(scans, sets, 1, true);
        try { give(scan, set, 2, ok); } catch (std::exception&) { refused = true; }
        if (scans * sets * 2 > (int)m.tr.size()) give(1, 1, 3, true);
    }
    if (refused == ok) c.fail(fmt("trace of set %lld of scan type %lld in a record of %d x %d is %s", (long long)set, (long long)scan, scans, sets, refused ? "refused" : "accepted"));
    if (slurp(out) != m.bytes()) c.fail(fmt("after a trace of set %lld of scan type %lld: ", (long long)set, (long long)scan) + diff(m.bytes(), slurp(out)));
    Hash h;
    h << scans << sets << before << ext << scan << set;
    c.state(h.h);
}
// traces built by the user with a standard extension: receiver line and point as integers, whole or fractional reals, or
// not at all, after a trace that has all of it
static void user_ext(Ctx& c)
{
    static vector<double> const nums { 0, 1, 20, 255, 256, 65535, 65536, 8388607, 8388608, 16777215 };
    int lk = c.pick(4), pk = c.pick(4), rest = c.pick(8), blocks = 1 + c.pick(2), before = c.pick(2);
    c.shard();
    int li = c.pick((int)nums.size()), pi = c.thorough() ? c.pick((int)nums.size()) : (li + 3) % nums.size();
    double ln = nums[li], pn = nums[pi];
    int fr = c.of({ 1, 0x8000, 0xffff });
    Record m = canonical(shape(8058, 2, blocks));
    vector<Trace> ts;
    for (int i = 0; i < 2; ++i) {
        bool full = !i && before;
        MTrace& t = m.tr[i];
        string& e = t.ext[0];
        for (auto& x : t.ext) x = string(32, '\0');
        canonical(t);
        Hdr h;
        for (auto& k : dec_trace_hdr(2, t, {})) h.set(k.first, k.second);
        auto num = [&](char const* name, int kind, double v, int at, int long_at) {
            h.m.erase(name);
            if (!kind) return;
            double x = v + (kind == 3 ? fr / 65536. : 0);
            if (kind == 1) h.set(name, (int64_t)v); else h.set(name, x);
            set_be(e, at, 3, (uint64_t)v); set_be(e, long_at, 3, (uint64_t)v);
            set_be(e, long_at + 3, 2, kind == 3 ? fr : 0);
        };
        num("R_LINE", full ? 3 : lk, full ? 77 : ln, 0, 10);
        num("R_POINT", full ? 3 : pk, full ? 88 : pn, 3, 15);
        auto byte = [&](char const* name, bool there, int at, int v) {
            h.m.erase(name);
            if (there) { h.set(name, (int64_t)v); e[at] = v; }
        };
        byte("R_POINT_IDX", full || (rest & 1), 6, 9);
        byte("SENSOR_TYPE", full || (rest & 2), 20, 5);
        h.m.erase("SAMP_NUM");
        if (rest & 4) h.set("SAMP_NUM", (int64_t)t.bits.size());
        set_be(e, 7, 3, t.bits.size());
        ts.emplace_back(std::move(h.m), vector<double> { dec_sample(8058, t.bits[0]), dec_sample(8058, t.bits[1]) });
    }
    string in = c.path("in.sgd"), out = c.path("out.sgd");
    spew(in, m.bytes());
    Parts p(in, {}, 0);
    p.tr = ts;
    p.write(out);
    c.step(3);
    if (slurp(out) != m.bytes()) c.fail(fmt("line %g of kind %d, point %g of kind %d, rest %d: ", ln, lk, pn, pk, rest) + diff(m.bytes(), slurp(out)));
    Hash h;
    h << m.bytes() << rest;
    c.state(h.h);
}
// the number of samples may differ from the channel set's only when the trace stores it
static void where_stored(Ctx& c)
{
    int nb = c.pick(4), at = c.pick(4), e = c.pick(5), n = c.of({ 0, 1, 2, 3, 4, 255, 256, 65535, 65536, 70000 }), named = c.pick(2);
    c.shard();
    if (nb && n > 65535) return; // the field of the map has two bytes
    if (at > nb || (!nb && at)) return;
    // the block that holds the number (nb: none), with fields around it
    ExtMap em(nb);
    for (int i = 0; i < nb; ++i) {
        em[i][0] = { fmt("A%d", i), VT::int16_t };
        if (i == at) em[i][10] = { "SAMP_NUM", VT::uint16_t };
        em[i][20] = { fmt("B%d", i), VT::uint8_t };
    }
    Record m = canonical(shape(8058, 2, 0));
    m.tr.clear();
    string in = c.path("in.sgd"), out = c.path("out.sgd");
    spew(in, m.bytes());
    bool stored = nb ? at < nb && at < e : e > 0, ok = n == 2 || stored, refused = false;
    Parts p(in, em, 0);
    {
        auto w = p.open(out);
        vector<uint64_t> bits(n, 0x3f900000);
        MTrace t = make_trace(m, 1, 1, 1, bits, e, 1);
        for (auto& x : t.ext) x = string(32, '\0');
        canonical(t, em);
        Hdr h;
        for (auto& k : dec_trace_hdr(2, t, {})) h.set(k.first, k.second);
        for (int i = 0; i < nb; ++i) {
            h.set(fmt("A%d", i), (int64_t)(-7 * i)); h.set(fmt("B%d", i), (int64_t)(i + 3));
            if (i < e) { set_be(t.ext[i], 0, 2, -7 * i); t.ext[i][20] = i + 3; }
        }
        if (nb) { if (stored) set_be(t.ext[at], 10, 2, n); }
        else if (e) {
            set_be(t.ext[0], 7, 3, n);
            h.set("R_LINE", (int64_t)0); h.set("R_POINT", (int64_t)0); h.set("R_POINT_IDX", (int64_t)0); h.set("SENSOR_TYPE", (int64_t)0);
        }
        h.set("TR_HDR_EXT", (int64_t)e);
        h.m.erase("SAMP_NUM");
        if (named) h.set("SAMP_NUM", (int64_t)n);
        Trace tr(std::move(h.m), vector<double>(n, 1.125));
        c.step();
        try { w->write_trace(tr); m.tr.push_back(t); } catch (std::exception&) { refused = true; }
    }
    string what = fmt("map of %d blocks, number in block %d, %d extensions, %d samples", nb, at, e, n);
    if (refused == ok) c.fail(what + (refused ? ": refused" : ": accepted"));
    if (slurp(out) != m.bytes()) c.fail(what + ": " + diff(m.bytes(), slurp(out)));
    Parts q(out, em);
    if (q.tr.size() != (ok ? 1u : 0u) || (ok && (int)q.tr[0].samples().size() != n)) c.fail(what + ": reads back differently");
    c.state(what);
}
// counts of the user beyond two digits stand in the second general header, whatever the first one is given
static void user_counts(Ctx& c)
{
    int which = c.pick(5), eff = c.of({ 0, 1, 2, 99, 100, 101, 300 });
    c.shard();
    if (which == 2 && !eff) return;
    Shape s = shape();
    s.ext_counts = true;
    if (which == 0 || which == 4) s.extended = eff;
    if (which == 1 || which == 4) s.external = eff;
    if (which == 2) s.sets = eff;
    Record m = canonical(s);
    if (which == 3) { for (int k = 0; k < 4; ++k) set_nib(m.gh1, k, 15); set_be(m.gh2, 0, 3, 10000 + eff); }
    string in = c.path("in.sgd"), out = c.path("out.sgd");
    spew(in, m.bytes());
    Parts p(in);
    for (int v : { 100, 101, 109, 110, 127, 128, 129, 160, 165, 199, 200, 250, 254, 255 }) {
        if (which == 0 || which == 4) p.gh.extended_hdr_blocks = v;
        if (which == 1 || which == 4) p.gh.external_hdr_blocks = which == 4 ? 355 - v : v;
        if (which == 2) p.gh.channel_sets_per_scan_type = v;
        if (which == 3) p.gh.file_number = 9900 + v;
        p.write(out);
        c.step(1 + m.tr.size());
        if (slurp(out) != m.bytes()) c.fail(fmt("count %d of kind %d for %d: ", v, which, eff) + diff(m.bytes(), slurp(out)));
        Hash h;
        h << which << eff << v;
        c.state(h.h);
    }
}
int main(int argc, char** argv)
{
    return explore_main(argc, argv, { { "gh1", gh1 }, { "scans", scans }, { "extended_forms", extended_forms }, { "gh2", gh2 }, { "ghn", ghn }, { "lines", lines },
        { "set_fields", set_fields }, { "set_words", set_words }, { "descale", descale }, { "own_scales", own_scales }, { "shapes", shapes }, { "large", large }, { "trace_digits", trace_digits },
        { "trace_bytes", trace_bytes }, { "file_number", file_number }, { "ext1", ext1 }, { "fractions", fractions }, { "samp_num", samp_num }, { "map_one", map_one },
        { "map_two", map_two }, { "map_values", map_values }, { "blocks_and_maps", blocks_and_maps }, { "many", many }, { "sercel", sercel }, { "patterns", patterns },
        { "patterns_group", patterns_group }, { "patterns_24", patterns_24 }, { "patterns_wide", patterns_wide }, { "values", values }, { "user_headers", user_headers },
        { "user_map", user_map }, { "user_counts", user_counts }, { "user_ext", user_ext }, { "where_stored", where_stored }, { "bad_sets", bad_sets }, { "sequences", sequences }, { "half_way", half_way }, { "contradictions", contradictions }, { "foreign_blocks", foreign_blocks }, { "unsupported", unsupported } });
}
