// C05: SEG-Y files have the standard byte layout, on writing and on reading.
#include "segy_layouts.hpp"
using namespace segy;

// integers every format can hold and that exercise all bytes
static double val(Fmt f, int i)
{
    static uint64_t const pat[] = { 1, 0x0102030405060708ull, 0, 0xf1e2d3c4b5a69788ull, 0x7f, 0x80, 0xffffffffffffffffull, 0x123456 };
    uint64_t b = pat[i % 8];
    if (f.code == 1) return ibm_dec((uint32_t)(0x41000000u | (b & 0x80ffffff) | 0x100000));
    if (f.code == 5) return u2f((uint32_t)(0x3f000000u | (b & 0x80ffffff)));
    if (f.code == 6) return u2d(0x3ff0000000000000ull | (b & 0x800fffffffffffffull));
    if (f.width == 8) b >>= 11; // exact as double
    if (f.width < 8) b &= (1ull << (8 * f.width)) - 1;
    return f.is_signed ? (double)sext(b, f.width) : (double)b;
}
static void fill(MFile& f)
{
    Fmt fm = fmt_of(f.bin.format_code);
    int k = 0;
    for (auto& t : f.tr) for (auto& s : t.smp) s = val(fm, k++);
}

static void writers(Ctx& c)
{
    int rev = c.pick(3);
    int32_t e = c.of({ 0, LE, BE });
    int code = c.of(formats()).code;
    bool fixed = rev ? c.flag() : true;
    int n_text = rev ? 1 + c.pick(3) : 1, n_trail = rev == 2 ? c.pick(3) : 0, add = rev == 2 ? c.pick(3) : 0;
    c.shard();
    int n = c.pick(c.thorough() ? 4 : 3);
    Layout l {};
    l.rev = rev; l.endian = e; l.code = code; l.fixed = fixed; l.n_ext = n_text - 1; l.gap = -1; l.add = add; l.n_trail = n_trail;
    vector<int> lens;
    for (int i = 0; i < n; ++i) lens.push_back(fixed ? 4 : c.of({ 4, 1, 0 }));
    MFile f = build(l, 4, lens);
    fill(f);
    f.bin.samp_int = 0x0102;
    f.bin.job_id = 0x01020304;
    string p = c.path("f.sgy");
    {
        Writer w(rev, p, f.text, f.bin, f.trailer, f.map);
        for (auto& t : f.tr) { w.write(t); c.step(); }
    }
    f.bin = derived_bin(rev, f.bin, n_text, n_trail);
    string d = diff(f.bytes(), slurp(p));
    c.note(fmt("rev %d endian %x format %d fixed %d text %d trailer %d add %d traces %d", rev, (unsigned)e, code, fixed, n_text, n_trail, add, n));
    if (!d.empty()) c.fail("written file: " + d);
    c.state(f.bytes());
}
static void readers(Ctx& c)
{
    Layout l = pick_layout(c, { 1, 2, 8 }, { LE, BE }, true);
    c.shard();
    int n = c.pick(c.thorough() ? 4 : 3);
    if (l.trail_term && n == 0) return;
    vector<int> lens;
    for (int i = 0; i < n; ++i) lens.push_back(l.fixed ? 3 : c.of({ 3, 0 }));
    MFile f = build(l, 3, lens);
    fill(f);
    string p = c.path("f.sgy");
    spew(p, f.bytes());
    check_read(c, p, f);
    Hash h;
    h << f.bytes();
    c.state(h.h);
}
// every format and byte order, every trace length around the limits of its 16-bit count, fixed and variable
static void lengths(Ctx& c)
{
    int rev = c.pick(3);
    int32_t e = c.of({ 0, LE, BE });
    int code = c.of(formats()).code;
    bool fixed = rev ? c.flag() : true;
    int n = c.of({ 1, 2, 127, 128, 255, 256, 32767, 32768, 65535 });
    int where = c.pick(3); // 16-bit field; extended field; standard map (signed 16-bit SAMP_NUM)
    c.shard();
    Layout l {};
    l.rev = rev; l.endian = e; l.code = code; l.fixed = fixed; l.gap = -1;
    l.wide = where == 2;
    MFile f = build(l, n, { n, fixed ? n : n / 2, n });
    fill(f);
    if (where == 1) { f.bin.ext_samp_per_tr = n; f.bin.samp_per_tr = 1; }
    if (!f.bin.fixed_tr_length && rev == 0 && where == 1) {}
    string p = c.path("f.sgy");
    spew(p, f.bytes());
    check_read(c, p, f);
    Hash h;
    h << rev << e << code << fixed << n << where;
    c.state(h.h);
}
// every byte value at every sample byte position (reader), one file per format and byte order
static void sample_bytes(Ctx& c)
{
    Fmt f = c.of(formats());
    int32_t e = c.of({ 0, LE, BE });
    int pos = c.pick(8);
    c.shard();
    if (pos >= f.width) return;
    Layout l {};
    l.rev = 1; l.endian = e; l.code = f.code; l.fixed = true; l.gap = -1;
    MFile m = build(l, 256, { 256 });
    string b = m.bytes();
    for (int bg : { 0, 0xff, 0x40 }) {
        size_t s0 = 3840;
        for (int i = 0; i < 256; ++i)
            for (int k = 0; k < f.width; ++k) b[s0 + i * f.width + k] = (char)(k == pos ? i : bg);
        string p = c.path("f.sgy");
        spew(p, b);
        sedaman::ISEGY r(p, m.map);
        Trace t = r.read_trace();
        c.step(2);
        for (int i = 0; i < 256; ++i) {
            double w = smp_val(f, get(b, s0 + i * f.width, f.width, is_le(e)));
            if (!same(w, t.samples()[i])) c.fail(fmt("format %d bytes %s read as %.17g expected %.17g", f.code, hex(b.substr(s0 + i * f.width, f.width)).c_str(), t.samples()[i], w));
        }
        Hash h;
        h << f.code << e << pos << bg;
        c.state(h.h);
    }
}
// every byte value at every trace header byte (reader), for each field type
static void header_bytes(Ctx& c)
{
    VT t = c.of(all_vt());
    int32_t e = c.of({ 0, LE, BE });
    int add = c.pick(3);
    c.shard();
    int w = vt_size(t), pos = c.pick(w), idx = c.pick(add + 1);
    Layout l {};
    l.rev = 2; l.endian = e; l.code = 8; l.fixed = true; l.gap = -1; l.add = add;
    MFile m = build(l, 0, vector<int>(256, 0));
    m.map = {};
    for (int i = 0; i <= add; ++i) m.map.push_back({ fmt("SEG0000%d", i), {} });
    int off = c.of({ 0, 101, 240 - w });
    m.map[idx].second[off] = { "X", t };
    string b = m.bytes();
    size_t sz = 240 * (add + 1);
    for (int bg : { 0, 0xff }) {
        for (int i = 0; i < 256; ++i) for (int k = 0; k < w; ++k) b[3600 + i * sz + idx * 240 + off + k] = (char)(k == pos ? i : bg);
        string p = c.path("f.sgy");
        spew(p, b);
        sedaman::ISEGY r(p, m.map);
        for (int i = 0; i < 256; ++i) {
            auto h = r.read_header();
            c.step();
            Value want = fld_val(t, get(b, 3600 + i * sz + idx * 240 + off, w, is_le(e)));
            auto got = h.get("X");
            if (!got || !val_same(*got, want)) c.fail(fmt("type %d bytes %s read as %s expected %s", (int)t, hex(b.substr(3600 + i * sz + idx * 240 + off, w)).c_str(), got ? val_str(*got).c_str() : "nothing", val_str(want).c_str()));
        }
        Hash h;
        h << t << e << add << pos << idx << off << bg;
        c.state(h.h);
    }
}
// header map of another length than the trace has headers: headers without a map are stepped over,
// maps without a header give nothing, for every way of reading
static void maps(Ctx& c)
{
    int32_t e = c.of({ LE, BE });
    int add = c.pick(c.thorough() ? 6 : 4);
    int mapped = 1 + c.pick(c.thorough() ? 8 : 6);
    bool fixed = c.flag();
    int n_trail = c.pick(2);
    int junk = c.of({ 0, 0x55, 0xff });
    c.shard();
    Layout l {};
    l.rev = 2; l.endian = e; l.code = 3; l.fixed = fixed; l.gap = -1; l.add = add; l.n_trail = n_trail;
    vector<int> lens;
    int n = 1 + c.pick(3);
    for (int i = 0; i < n; ++i) lens.push_back(fixed ? 3 : c.of({ 3, 0 }));
    MFile f = build(l, 3, lens);
    string b = f.bytes();
    auto pos = f.trace_pos();
    while ((int)f.map.size() > mapped) f.map.pop_back();
    while ((int)f.map.size() < mapped) f.map.push_back({ fmt("SEG0000%zu", f.map.size()), { { 7, { fmt("U%zu", f.map.size()), VT::int16_t } } } });
    for (int i = 0; i < n; ++i)
        for (int k = mapped; k <= add; ++k) for (int q = 0; q < 240; ++q) b[pos[i] + 240 * k + q] = (char)junk;
    string p = c.path("f.sgy");
    spew(p, b);
    int how = c.pick(4);
    if (how % 2 && add && mapped != add + 1) return; // refused, see C11
    c.note(fmt("%d additional headers, %d mapped, way %d", add, mapped, how));
    std::unique_ptr<sedaman::ISEGY> r;
    vector<int> order;
    for (int i = 0; i < n; ++i) order.push_back(i);
    if (how == 0) r = std::make_unique<sedaman::ISEGY>(p, f.map);
    else if (how == 1) r = std::make_unique<sedaman::ISEGY>(p, dec_bin(enc_bin(f.bin)), f.map);
    if (r) {
        for (int i = 0; i < n; ++i) {
            if (!r->has_trace()) c.fail(fmt("no trace %d of %d", i, n));
            string d = c.flag() ? diff_trace(f.expected(i), r->read_trace()) : diff_hdr(f.expected(i).hdr, r->read_header());
            c.step(2);
            if (!d.empty()) c.fail(fmt("trace %d: ", i) + d);
        }
        if (r->has_trace()) c.fail("a trace remains after the last one");
    } else {
        std::unique_ptr<sedaman::ISEGYSorted1D> s;
        if (how == 2) s = std::make_unique<sedaman::ISEGYSorted1D>(p, "KEY", f.map);
        else s = std::make_unique<sedaman::ISEGYSorted1D>(p, "KEY", dec_bin(enc_bin(f.bin)), f.map);
        for (int i = n; i--;) { // keys are falling
            if (!s->has_trace()) c.fail(fmt("sorted: no trace %d", i));
            string d = diff_trace(f.expected(i), s->read_trace());
            auto v = s->get_traces(Value(int64_t(1000 - i)), 9);
            if (v.size() != 1) c.fail(fmt("sorted: %zu traces of a key", v.size()));
            if (d.empty()) d = diff_trace(f.expected(i), v[0]);
            auto h = s->get_headers(Value(int64_t(1000 - i)), 9);
            if (h.size() != 1) c.fail(fmt("sorted: %zu headers of a key", h.size()));
            if (d.empty()) d = diff_hdr(f.expected(i).hdr, h[0]);
            c.step(4);
            if (!d.empty()) c.fail(fmt("sorted: trace %d: ", i) + d);
        }
        if (s->has_trace()) c.fail("sorted: a trace remains after the last one");
    }
    Hash h;
    h << b << mapped << how;
    c.state(h.h);
}
// counts around the limits of 8- and 16-bit numbers: text blocks, additional headers, samples and traces, written and read
static void counts(Ctx& c)
{
    int rev = c.pick(3), which = c.pick(5);
    if ((which == 0 && rev == 0) || ((which == 1 || which == 2) && rev < 2)) return;
    int32_t e = c.of({ LE, BE });
    bool fixed = rev ? c.flag() : true, term = rev && which < 2 ? c.flag() : false;
    vector<int> ns { 9, 10, 15, 16, 17, 31, 32, 99, 100, 127, 128, 129, 199, 200, 255, 256, 257, 300 };
    if (which > 2) for (int k : { 999, 1000, 4095, 4096, 9999, 10000, 32767, 32768, 65535, 65536, 65537, 70000 }) if (which == 3 || c.thorough() || k == 32768 || k == 65537) ns.push_back(k);
    if (which < 3 && c.thorough()) for (int k : { 999, 1000, 1025, 4095, 4097 }) ns.push_back(k);
    int n = c.of(ns);
    if (which == 3 && rev < 2 && n > 65535) return;
    c.shard();
    Layout l {};
    l.rev = rev; l.endian = e; l.code = which == 4 ? 8 : 2; l.fixed = fixed; l.gap = -1;
    if (which == 0) { l.n_ext = n; l.ext_term = term; }
    if (which == 1) { l.n_trail = n; l.trail_term = term; }
    if (which == 2) l.add = n;
    vector<int> lens(which == 4 ? n : 2, which == 4 ? 1 : 2);
    if (which == 3) lens = { n, fixed ? n : n - 1, n };
    MFile f = build(l, which == 3 ? n : lens[0], lens);
    if (which > 2) fill(f);
    if (which == 3 && rev == 2) {
        f.map[0].second.erase(114);
        f.map[0].second[200] = { "SAMP_NUM", VT::int32_t };
        f.bin.ext_samp_per_tr = n;
        f.bin.samp_per_tr = 0;
        for (size_t i = 0; i < lens.size(); ++i) {
            f.tr[i].hdr["SAMP_NUM"] = (int64_t)lens[i];
            f.tr[i].smp.resize(lens[i]);
        }
        fill(f);
    }
    if (which == 3 && rev < 2 && n > 32767) f.bin.samp_per_tr = (int16_t)n;
    string p = c.path("f.sgy"), b = f.bytes();
    c.note(fmt("rev %d count %d of kind %d", rev, n, which));
    spew(p, b);
    check_read(c, p, f);
    if (!term) {
        string q = c.path("g.sgy");
        {
            Writer w(rev, q, f.text, f.bin, f.trailer, f.map);
            for (auto& t : f.tr) { w.write(t); c.step(); }
        }
        string d = diff(b, slurp(q));
        if (!d.empty()) c.fail(fmt("written file, rev %d, count %d of kind %d: ", rev, n, which) + d);
    }
    Hash h;
    h << rev << e << fixed << term << which << n;
    c.state(h.h);
}
int main(int argc, char** argv)
{
    return explore_main(argc, argv, { { "writers", writers }, { "readers", readers }, { "lengths", lengths }, { "sample_bytes", sample_bytes }, { "header_bytes", header_bytes }, { "maps", maps }, { "counts", counts } });
}
