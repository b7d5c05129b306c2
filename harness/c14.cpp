// C14: SEG-D samples decode to the value the format defines.
#include "segd_model.hpp"
using namespace segd;

static Record empty(int rev, int format, int sets = 1, int chans = 1)
{
    Shape s;
    s.rev = rev; s.format = format; s.sets = sets; s.chans = chans;
    Record r = build(s);
    r.tr.clear();
    return r;
}
static void run(Ctx& c, vector<Record> const& m, string const& what)
{
    string p = c.path("f.sgd"), b;
    for (auto& r : m) b += r.bytes();
    spew(p, b);
    string d = diff_file(m, p, {}, &c);
    if (!d.empty()) c.fail(what + ": " + d);
    Hash h;
    h << b;
    c.state(h.h);
}
// one trace with the given patterns, revision 2 (count in the extension) or 3
static void one(Ctx& c, int rev, int format, vector<uint64_t> const& bits, string const& what)
{
    Record m = empty(rev, format);
    if (rev > 2) set_be(m.sets[0][0], 12, 4, bits.size());
    m.tr.push_back(make_trace(m, 1, 1, 1, bits, rev > 2 ? 0 : 1));
    run(c, { m }, what);
}
// all patterns of the 8- and 16-bit formats
static void narrow(Ctx& c)
{
    int f = c.of({ 8022, 8042, 8024, 8044 });
    int rev = c.of({ 1, 2, 3 });
    c.shard();
    vector<uint64_t> b;
    for (uint64_t i = 0; i < 1ull << fmt_bits(f); ++i) b.push_back(i);
    one(c, rev, f, b, fmt("format %d, all patterns", f));
}
// 8015: all words with all exponents at all positions of the group
static void group(Ctx& c)
{
    int pos = c.pick(4), e = c.pick(16), rev = c.of({ 2, 3 });
    c.shard();
    vector<uint64_t> b(4 * 65536);
    for (int w = 0; w < 65536; ++w)
        for (int k = 0; k < 4; ++k) b[4 * w + k] = k == pos ? (uint64_t)e << 16 | w : (uint64_t)((e + 5 * k) & 15) << 16 | ((w * 77 + k * 4099) & 0xffff);
    one(c, rev, 8015, b, "format 8015, all words");
}
// all 24-bit patterns
static void wide24(Ctx& c)
{
    int f = c.of({ 8036, 9036 });
    int hi = c.pick(256);
    c.shard();
    vector<uint64_t> b(65536);
    for (int i = 0; i < 65536; ++i) b[i] = (uint64_t)hi << 16 | i;
    one(c, 2, f, b, fmt("format %d, all patterns from %02x0000", f, hi));
}
// 32-bit formats: all upper half words with boundary lower ones and the reverse
static void wide32(Ctx& c)
{
    int f = c.of({ 8038, 9038, 8048, 8058, 9058 });
    int part = c.pick(c.thorough() ? 256 : 8);
    int rev = c.of({ 2, 3 });
    c.shard();
    static uint32_t const lo[] { 0, 0xffff, 1, 0x8000, 0x7fff, 0x00ff, 0x1234, 0xaaaa };
    vector<uint64_t> b;
    uint32_t k = part < 8 ? lo[part] : (part * 40503u) & 0xffff;
    for (uint32_t i = 0; i < 65536; ++i) { b.push_back((uint64_t)(i << 16 | k)); b.push_back((uint64_t)(k << 16 | i)); }
    one(c, rev, f, b, fmt("format %d", f));
}
static void wide64(Ctx& c)
{
    int f = c.of({ 8080, 9080 });
    int part = c.pick(c.thorough() ? 64 : 8);
    int rev = c.of({ 2, 3 });
    c.shard();
    static uint64_t const bg[] { 0, 0xffffffffffffffull, 1, 0x800000000000ull, 0x123456789abcull, 0x7fffffffffffull, 0xff00ff00ff00ull, 0xaaaaaaaaaaaaull };
    uint64_t k = part < 8 ? bg[part] : (part * 0x9e3779b97f4a7c15ull);
    vector<uint64_t> b;
    for (uint64_t i = 0; i < 65536; ++i) b.push_back(i << 48 | (k & 0xffffffffffffull)); // sign and exponent
    for (int byte = 0; byte < 6; ++byte)
        for (uint64_t v = 0; v < 256; ++v) b.push_back(0x3ff0000000000000ull | (k & 0xfffffffffffffull & ~(0xffull << 8 * byte)) | v << 8 * byte);
    one(c, rev, f, b, fmt("format %d", f));
}
// descale exponent of the channel set: all values of the field
static void descale(Ctx& c)
{
    int f = c.of({ 8036, 8058, 8015, 8042 });
    int hi = c.pick(256);
    int part = c.pick(4);
    c.shard();
    if (f != 8036 && part != hi % 4) return;
    int const n = 64;
    Record m = empty(2, f, n, 1);
    for (int i = 0; i < n; ++i) {
        m.sets[0][i][6] = hi; m.sets[0][i][7] = part * 64 + i;
        m.tr.push_back(make_trace(m, 1, i + 1, 1, { some_bits(f, i), some_bits(f, i + 100), 0 }, 1));
    }
    run(c, { m }, fmt("format %d, descale field %02x..", f, hi));
}
static void descale3(Ctx& c)
{
    int f = c.of(all_formats);
    c.shard();
    Record m = empty(3, f, 65, 1);
    for (int i = 0; i < 65; ++i) {
        set_be(m.sets[0][i], 16, 4, i);
        set_be(m.sets[0][i], 12, 4, 5);
        vector<uint64_t> b;
        for (int k = 0; k < 5; ++k) b.push_back(some_bits(f, i * 5 + k));
        m.tr.push_back(make_trace(m, 1, i + 1, 1, b, i % 2));
    }
    run(c, { m }, fmt("format %d, revision 3 descale", f));
}
// all sequences of sample counts: a trace does not depend on those before it
static void lengths(Ctx& c)
{
    int f = c.of(all_formats);
    int n = 1 + c.pick(c.thorough() ? 4 : 3);
    c.shard();
    static vector<int> const len { 0, 1, 2, 3, 4, 5, 7, 8, 9 };
    Record m = empty(2, f, 1, n);
    string what = fmt("format %d, lengths", f);
    for (int i = 0; i < n; ++i) {
        int k = c.of(len);
        what += fmt(" %d", k);
        vector<uint64_t> b;
        for (int q = 0; q < k; ++q) b.push_back(some_bits(f, i * 11 + q));
        m.tr.push_back(make_trace(m, 1, 1, i + 1, b, 1));
    }
    c.note(what);
    run(c, { m }, what);
}
// every set of every scan type with a scale and a length of its own, traces in every rotation of their order
static void own_scales(Ctx& c)
{
    int f = c.of(all_formats), rev = c.of({ 1, 2, 3 });
    int scans = c.of({ 1, 2, 3, 10, 11 }), sets = c.of({ 1, 2, 3, 11 });
    c.shard();
    if (scans * sets > 33) return;
    int n = scans * sets, turn = c.pick(n < 6 ? n : 6), first = c.pick(n < 6 ? n : 6);
    Shape s;
    s.rev = rev; s.format = f; s.scans = scans; s.sets = sets;
    Record m = build(s);
    m.tr.clear();
    auto len = [&](int k) { return rev > 2 ? k % 5 : 1 << k % 3; };
    for (int k = 0; k < n; ++k) {
        string& h = m.sets[k / sets][k % sets];
        int e = (k + turn) % n % 32;
        if (rev > 2) { set_be(h, 16, 4, e); set_be(h, 12, 4, len(k)); }
        else { if (k % 2) e = -e; set_be(h, 6, 2, e < 0 ? 0x8000 | -e << 10 : e << 10); set_nib(h, 22, k % 3); }
    }
    for (int q = 0; q < n; ++q) {
        int k = (q + first) % n;
        vector<uint64_t> b;
        for (int i = 0; i < len(k); ++i) b.push_back(some_bits(f, k * 13 + i));
        m.tr.push_back(make_trace(m, k / sets + 1, k % sets + 1, 1, b, 0));
    }
    run(c, { m }, fmt("revision %d format %d, %d scan types of %d sets with scales of their own", rev, f, scans, sets));
}
// all ways to declare the sample count, by revision and channel set, in both scan types
static void counts(Ctx& c)
{
    int f = c.of(all_formats);
    int rev = c.of({ 0, 1, 2, 3 });
    int la = c.pick(5), lb = c.pick(5);
    c.shard();
    int ext = c.pick(4);
    if (rev == 0 && ext) return;
    Shape s;
    s.rev = rev; s.format = f; s.scans = 2; s.sets = 2;
    Record m = build(s);
    m.tr.clear();
    static int const l3[] { 0, 1, 3, 6, 17 };
    for (int sc = 0; sc < 2; ++sc)
        for (int k = 0; k < 2; ++k) {
            int v = (sc + k) % 2 ? lb : la;
            int cnt = rev > 2 ? l3[v] : 1 << v;
            if (rev > 2) set_be(m.sets[sc][k], 12, 4, cnt); else set_nib(m.sets[sc][k], 22, v);
            int own = ext >> (k == 0) & 1;
            if (own) cnt = cnt * 2 + 1; // the extension overrides
            vector<uint64_t> b;
            for (int q = 0; q < cnt; ++q) b.push_back(some_bits(f, sc * 7 + k * 31 + q));
            m.tr.push_back(make_trace(m, sc + 1, k + 1, 1, b, own));
        }
    run(c, { m }, fmt("revision %d format %d", rev, f));
}
// records of different formats one after another
static void formats(Ctx& c)
{
    int a = c.of(all_formats), b = c.of(all_formats);
    c.shard();
    int la = c.of({ 1, 2, 5 });
    vector<Record> v;
    for (int i = 0; i < 3; ++i) {
        Shape s;
        s.format = i == 1 ? b : a; s.rev = i == 1 ? 3 : 2; s.samples = i == 1 ? la : 4; s.chans = 2; s.seed = i;
        v.push_back(build(s));
    }
    run(c, v, fmt("formats %d %d", a, b));
}
// two readers interleaved in every order
static void readers(Ctx& c)
{
    int fa = c.of(all_formats), fb = c.of({ 8015, 8058, 9036, 8022 });
    c.shard();
    Record m[2];
    string p[2] { c.path("a.sgd"), c.path("b.sgd") };
    for (int i = 0; i < 2; ++i) {
        m[i] = empty(2, i ? fb : fa, 1, 3);
        for (int t = 0; t < 3; ++t) {
            vector<uint64_t> b;
            for (int q = 0; q < 3 + t + 2 * i; ++q) b.push_back(some_bits(m[i].format, i * 50 + t * 9 + q));
            m[i].tr.push_back(make_trace(m[i], 1, 1, t + 1, b, 1));
        }
        spew(p[i], m[i].bytes());
    }
    std::unique_ptr<ISEGD> r[2];
    size_t pos[2] {};
    for (int left = 8; left; --left) {
        int w = pos[0] == 4 ? 1 : pos[1] == 4 ? 0 : c.pick(2);
        if (!pos[w]) r[w] = std::make_unique<ISEGD>(p[w]);
        else {
            string d = diff_trace(m[w], m[w].tr[pos[w] - 1], r[w]->read_trace());
            if (!d.empty()) c.fail(fmt("reader %d trace %zu: ", w, pos[w] - 1) + d);
        }
        ++pos[w];
        c.step();
    }
    Hash h;
    h << fa << fb;
    c.state(h.h);
}
// unsupported formats are refused
static void unsupported(Ctx& c)
{
    int f = c.pick(10000);
    for (int k : all_formats) if (k == f) return;
    Record m = empty(2, f);
    m.format = 8058;
    m.tr.push_back(make_trace(m, 1, 1, 1, { 1 }, 1));
    string p = c.path("f.sgd");
    spew(p, m.bytes());
    bool ex = false;
    try { ISEGD r(p); r.read_trace(); } catch (std::exception&) { ex = true; }
    c.step();
    if (!ex) c.fail(fmt("samples of the unsupported format %d are delivered", f));
}
int main(int argc, char** argv)
{
    return explore_main(argc, argv, { { "narrow", narrow }, { "group", group }, { "wide24", wide24 }, { "wide32", wide32 }, { "wide64", wide64 },
        { "descale", descale }, { "descale3", descale3 }, { "own_scales", own_scales }, { "lengths", lengths }, { "counts", counts }, { "formats", formats }, { "readers", readers },
        { "unsupported", unsupported } });
}
