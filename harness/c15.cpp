// C15: SEG-D trace headers and header extensions are decoded field by field.
#include "segd_model.hpp"
using namespace segd;

static Record empty(int rev, int chans = 1, int sets = 1)
{
    Shape s;
    s.rev = rev; s.chans = chans; s.sets = sets; s.samples = 2;
    Record r = build(s);
    r.tr.clear();
    return r;
}
static vector<uint64_t> const two { 0x3f800000, 0xc0490fdb };
static void run(Ctx& c, vector<Record> const& m, ExtMap const& em, string const& what)
{
    string p = c.path("f.sgd"), b;
    for (auto& r : m) b += r.bytes();
    spew(p, b);
    c.step();
    string d = diff_file(m, p, em, &c);
    if (!d.empty()) c.fail(what + ": " + d);
    Hash h;
    h << b << (int)em.size();
    for (auto& e : em) for (auto& f : e) h << f.first << (int)f.second.second;
    c.state(h.h);
}
// every digit / value of every half byte of the trace header, over backgrounds
static void header(Ctx& c)
{
    int rev = c.of({ 0, 1, 2, 3 });
    int i = c.pick(40);
    int bg = c.pick(3);
    c.shard();
    int v = c.pick(i < 12 ? 10 : 16);
    // scan type, set and number of extensions lead to the samples and are varied below
    auto fixed = [](int k) { return k >= 4 && k < 8 || k >= 18 && k < 20 || k >= 30 && k < 34; };
    if (fixed(i)) return;
    Record m = empty(rev);
    MTrace t = make_trace(m, 1, 1, 1, two, 0);
    for (int k = 0; k < 40; ++k)
        if (!fixed(k)) set_nib(t.hdr, k, bg == 0 ? 0 : bg == 1 ? (k < 12 ? 9 : 15) : (k * 7 + 3) % 10);
    set_nib(t.hdr, i, v);
    m.tr.push_back(t);
    c.note(fmt("revision %d, half byte %d is %d", rev, i, v));
    run(c, { m }, {}, fmt("revision %d, half byte %d is %d", rev, i, v));
}
// file number in its extended form
static void file_number(Ctx& c)
{
    int rev = c.of({ 1, 2, 3 });
    bool set = c.flag();
    uint32_t v = c.of<uint32_t>({ 0, 1, 0xff, 0x100, 0xffff, 0x10000, 0x7fffff, 0x800000, 0xffffff });
    c.shard();
    Record m = empty(rev);
    MTrace t = make_trace(m, 1, 1, 1, two, 0);
    if (set) for (int k = 0; k < 4; ++k) set_nib(t.hdr, k, 15);
    set_be(t.hdr, 17, 3, v);
    m.tr.push_back(t);
    run(c, { m }, {}, fmt("extended file number %u", v));
}
// scan type and channel set of the trace, short and extended, decide the sample count
static void sets(Ctx& c)
{
    int rev = c.of({ 1, 2, 3 });
    int n = c.of({ 1, 3, 99, 101, 300 });
    int k = c.pick(8);
    bool ext = c.flag();
    c.shard();
    static int const w[] { 1, 2, 3, 98, 99, 100, 101, 300 };
    int set = w[k];
    if (set > n) return;
    Shape s;
    s.rev = rev; s.scans = 2; s.sets = n; s.chans = 0; s.samples = 1;
    Record m = build(s);
    for (int sc = 0; sc < 2; ++sc) {
        string& h = m.sets[sc][set - 1];
        if (rev > 2) { set_be(h, 20, 3, 1); set_be(h, 12, 4, 3 + sc); } else { set_bcd(h, 16, 4, 1); set_nib(h, 22, 2 + sc); }
        vector<uint64_t> b;
        int cnt = rev > 2 ? 3 + sc : 4 << sc;
        for (int q = 0; q < cnt; ++q) b.push_back(some_bits(8058, q + sc));
        MTrace t = make_trace(m, sc + 1, set, 1, b, 0);
        if (ext) set_be(t.hdr, 15, 2, set);
        m.tr.push_back(t);
    }
    run(c, { m }, {}, fmt("channel set %d of %d", set, n));
}
// first extension without a map: every value of every byte
static void ext1(Ctx& c)
{
    int rev = c.of({ 1, 2, 3 });
    int i = c.pick(32);
    int bg = c.pick(3);
    int trnum = c.pick(2);
    c.shard();
    int v = c.pick(256);
    // numbers are kept positive; sample count is set from the samples
    auto fixed = [&](int k) { return rev < 3 ? k >= 7 && k < 10 : k >= 24 && k < 28; };
    if (fixed(i)) return;
    Record m = empty(rev);
    MTrace t = make_trace(m, 1, 1, 1, two, 1);
    string& e = t.ext[0];
    for (int k = 0; k < 32; ++k) if (!fixed(k)) e[k] = bg == 0 ? 0 : bg == 1 ? 0x7f : k * 13 + 5;
    e[i] = v;
    for (int k : { 0, 3, 10, 15 }) if (e[k] & 0x80) {
        if (k == i) return;
        e[k] &= 0x7f;
    }
    if (trnum) for (int k = 8; k < 12; ++k) set_nib(t.hdr, k, 15);
    m.tr.push_back(t);
    c.note(fmt("revision %d, byte %d of extension 1 is %d", rev, i, v));
    run(c, { m }, {}, fmt("revision %d, byte %d of extension 1 is %d", rev, i, v));
}
// line, point and trace numbers: short and extended
static void numbers(Ctx& c)
{
    int rev = c.of({ 2, 3 });
    uint32_t a = c.of<uint32_t>({ 0, 1, 0xffffff, 0x7fffff });
    uint64_t x = c.of<uint64_t>({ 0, 1, 0xffff, 0x10000, 0x18000, 0x7fffffffffull, 0x123456789aull });
    c.shard();
    uint64_t y = c.of<uint64_t>({ 0, 1, 0x8000, 0x10000, 0x7fffff0000ull, 0x0102030405ull });
    uint32_t n = c.of<uint32_t>({ 0, 1, 9999, 10000, 0xffffff });
    bool set = c.flag();
    Record m = empty(rev);
    MTrace t = make_trace(m, 1, 1, 9, two, 1);
    string& e = t.ext[0];
    set_be(e, 0, 3, a); set_be(e, 3, 3, a);
    set_be(e, 10, 5, x); set_be(e, 15, 5, y);
    if (rev > 2) set_be(e, 21, 3, n);
    if (set) { if (rev < 3) return; for (int k = 8; k < 12; ++k) set_nib(t.hdr, k, 15); }
    m.tr.push_back(t);
    run(c, { m }, {}, "line and point numbers");
}
// sample count given by the first extension
static void samp_num(Ctx& c)
{
    int rev = c.of({ 1, 2, 3 });
    uint32_t n = c.of<uint32_t>({ 0, 1, 2, 3, 255, 256, 257, 65535, 65536, 65537, 100000 });
    int ext = 1 + c.pick(3);
    c.shard();
    Record m = empty(rev);
    vector<uint64_t> b;
    for (uint32_t i = 0; i < n; ++i) b.push_back(some_bits(8058, i));
    m.tr.push_back(make_trace(m, 1, 1, 1, b, ext));
    run(c, { m }, {}, fmt("%u samples", n));
}
// map: every type at every offset of every block
static void map_one(Ctx& c)
{
    VT t = (VT)c.pick(13);
    int blk = c.pick(3);
    int off = c.pick(33 - vt_size(t));
    int rev = c.of({ 1, 2, 3 });
    c.shard();
    int seed = c.pick(6);
    Record m = empty(rev);
    MTrace tr = make_trace(m, 1, 1, 1, two, 3);
    for (int k = 0; k < 3; ++k) {
        if (seed < 4) tr.ext[k] = filler(32, seed * 61 + k * 17);
        else tr.ext[k] = string(32, seed == 4 ? '\xff' : '\x80');
    }
    m.tr.push_back(tr);
    ExtMap em(blk + 1);
    em[blk][off] = { "FIELD", t };
    string what = fmt("type %d at byte %d of extension %d", (int)t, off, blk + 1);
    c.note(what);
    run(c, { m }, em, what);
}
// map: all pairs of types side by side at the edges of the block
static void map_two(Ctx& c)
{
    VT t = (VT)c.pick(13), u = (VT)c.pick(13);
    int place = c.pick(3);
    c.shard();
    int gap = c.pick(3), seed = c.pick(3);
    int w = vt_size(t) + gap + vt_size(u);
    int off = place == 0 ? 0 : place == 1 ? 32 - w : 11;
    Record m = empty(2);
    MTrace tr = make_trace(m, 1, 1, 1, two, 2);
    for (auto& e : tr.ext) e = filler(32, seed * 100 + (&e - &tr.ext[0]) * 9);
    m.tr.push_back(tr);
    ExtMap em(2);
    em[0][off] = { "A", t }; em[0][off + vt_size(t) + gap] = { "B", u };
    em[1][off] = { "C", u }; em[1][off + vt_size(u) + gap] = { "D", t };
    run(c, { m }, em, "two fields");
}
// values at the limits of every type
static void map_values(Ctx& c)
{
    VT t = (VT)c.pick(13);
    int i = c.pick(8);
    int bg = c.pick(4);
    c.shard();
    int n = vt_size(t);
    if (i >= n) return;
    int v = c.pick(256);
    Record m = empty(2);
    MTrace tr = make_trace(m, 1, 1, 1, two, 1);
    for (int k = 0; k < n; ++k) tr.ext[0][5 + k] = bg == 0 ? 0 : bg == 1 ? 0xff : bg == 2 ? 0x40 + k : 0x80;
    tr.ext[0][5 + i] = v;
    m.tr.push_back(tr);
    ExtMap em(1);
    em[0][5] = { "FIELD", t };
    run(c, { m }, em, fmt("type %d", (int)t));
}
// number of extensions against the size of the map, changing from trace to trace; the samples follow
static void blocks_and_maps(Ctx& c)
{
    int rev = c.of({ 1, 2, 3 });
    int maps = c.pick(4);
    int n = 1 + c.pick(3);
    c.shard();
    Record m = empty(rev, n);
    ExtMap em(maps);
    for (int i = 0; i < maps; ++i) {
        em[i][4 * i] = { fmt("A%d", i), VT::uint16_t };
        em[i][20] = { fmt("B%d", i), VT::int32_t };
    }
    if (maps == 3) em[1].clear();
    bool samp = maps ? c.flag() : false;
    if (samp) em[0][28] = { "SAMP_NUM", VT::uint16_t };
    string what = fmt("map of %d blocks, extensions", maps);
    for (int i = 0; i < n; ++i) {
        int k = c.pick(5);
        what += fmt(" %d", k);
        vector<uint64_t> b = two;
        MTrace t = make_trace(m, 1, 1, i + 1, b, k, i);
        if (samp && k) { // count given by the map
            t.bits = { 1, 2, 3, 4, 5 };
            set_be(t.ext[0], 28, 2, 5);
        }
        m.tr.push_back(t);
    }
    c.note(what);
    run(c, { m }, em, what);
}
// many extensions
static void many(Ctx& c)
{
    int n = c.of({ 5, 15, 16, 17, 127, 128, 200, 255 });
    int maps = c.of({ 0, 1, 7, 255 });
    int rev = c.of({ 2, 3 });
    c.shard();
    Record m = empty(rev, 2);
    ExtMap em(maps);
    for (int i = 0; i < maps; ++i) em[i][i % 25] = { fmt("F%d", i), VT::int64_t };
    for (int i = 0; i < 2; ++i) {
        m.tr.push_back(make_trace(m, 1, 1, i + 1, two, n, i));
    }
    run(c, { m }, em, fmt("%d extensions, map of %d", n, maps));
}
// the predefined maps of Sercel recorders
static void sercel(Ctx& c)
{
    int k = c.pick(3);
    int seed = c.pick(40);
    c.shard();
    ExtMap em = k == 0 ? CommonSEGD::sercel_428xl : k == 1 ? CommonSEGD::sercel_428 : CommonSEGD::sercel_408;
    int n = c.pick((int)em.size() + 2);
    Record m = empty(2);
    MTrace t = make_trace(m, 1, 1, 1, two, n);
    for (auto& e : t.ext) e = filler(32, seed * 53 + (&e - &t.ext[0]) * 7);
    map<string, Value> h = dec_trace_hdr(2, t, em);
    if (h.count("SAMP_NUM")) {
        for (size_t i = 0; i < em.size() && i < t.ext.size(); ++i)
            for (auto& f : em[i]) if (f.second.first == "SAMP_NUM") set_be(t.ext[i], f.first, vt_size(f.second.second), 2);
    }
    m.tr.push_back(t);
    run(c, { m }, em, fmt("predefined map %d", k));
}
// a map the reader accepts lies within the block and has no overlaps; others are refused before anything is read
static void bad_maps(Ctx& c)
{
    VT t = (VT)c.pick(13), u = (VT)c.pick(13);
    c.shard();
    int a = c.pick(34), b = c.pick(34);
    int blk = c.pick(2);
    if (a >= b) return;
    bool ok = a + vt_size(t) <= b && b + vt_size(u) <= 32;
    static string p;
    static MTrace tr;
    static Record m;
    if (p.empty()) {
        p = c.path("m.sgd");
        m = empty(2);
        tr = make_trace(m, 1, 1, 1, two, 2);
        m.tr.push_back(tr);
        spew(p, m.bytes());
    }
    ExtMap em(2);
    em[blk][a] = { "A", t }; em[blk][b] = { "B", u };
    bool refused = false;
    c.step();
    try {
        ISEGD r(p, em);
        if (ok) {
            string d = diff_trace(m, m.tr[0], r.read_trace(), em);
            if (!d.empty()) c.fail(fmt("types %d at %d and %d at %d: ", (int)t, a, (int)u, b) + d);
        }
    } catch (std::exception&) { refused = true; }
    if (refused == ok) c.fail(fmt("map with types %d at %d and %d at %d is %s", (int)t, a, (int)u, b, ok ? "refused" : "accepted"));
    Hash h;
    h << a << b << (int)t << (int)u << blk;
    c.state(h.h);
}
int main(int argc, char** argv)
{
    return explore_main(argc, argv, { { "header", header }, { "file_number", file_number }, { "sets", sets }, { "ext1", ext1 }, { "numbers", numbers },
        { "samp_num", samp_num }, { "map_one", map_one }, { "map_two", map_two }, { "map_values", map_values }, { "blocks_and_maps", blocks_and_maps },
        { "many", many }, { "sercel", sercel }, { "bad_maps", bad_maps } });
}
