// C18: truncated or corrupt SEG-D input is reported, never misread.
#include "oom.hpp"
#include "segd_model.hpp"
#include <unistd.h>
using namespace segd;

static ExtMap const em2 { { { 0u, { "A", VT::int32_t } }, { 20u, { "SAMP_NUM", VT::uint16_t } } }, { { 24u, { "B", VT::ieee_double } } } };
struct Layout {
    vector<Record> rec;
    ExtMap em;
    string bytes;
    vector<MTrace const*> tr;
    vector<Record const*> of;
    vector<size_t> start, end;      // of every trace
    vector<size_t> rec_start, data_end, rec_end; // of every record; data_end: end of its last trace
    void finish()
    {
        for (auto& r : rec) {
            rec_start.push_back(bytes.size());
            bytes += r.headers();
            for (auto& t : r.tr) {
                start.push_back(bytes.size());
                bytes += t.bytes(r.format);
                end.push_back(bytes.size());
                tr.push_back(&t); of.push_back(&r);
            }
            data_end.push_back(bytes.size());
            bytes += string(32 * r.trailer, '\x6b');
            rec_end.push_back(bytes.size());
        }
    }
    Layout() {}
    Layout(Layout const&) = delete;
};
static int const n_layouts = 10;
static void make(int k, Layout& l)
{
    auto sh = [](int rev, int format, int chans, int samples) { Shape s; s.rev = rev; s.format = format; s.chans = chans; s.samples = samples; return s; };
    switch (k) {
    case 0: l.rec = { build(sh(0, 8058, 2, 4)) }; break;
    case 1: { Shape s = sh(1, 8015, 1, 5); s.n_ext = 1; s.skew = 1; s.extended = 1; s.add = 1; l.rec = { build(s), build(sh(1, 8036, 1, 2)) }; break; }
    case 2: { Shape s = sh(2, 8036, 1, 3); s.scans = 2; s.n_ext = 2; s.external = 2; s.trailer = 2; s.add = 2; l.rec = { build(s) }; s.seed = 5; l.rec.push_back(build(s)); break; }
    case 3: { Shape s = sh(3, 9036, 2, 3); s.add = 2; s.n_ext = 1; s.trailer = 1; s.skew = 1; s.extended = 1; l.rec = { build(s), build(sh(2, 8024, 1, 2)) }; break; }
    case 4: { Shape s = sh(3, 8042, 1, 6); s.ext_counts = true; s.add = 3; s.skew = 2; s.external = 1; s.extended = 2; l.rec = { build(s) }; break; }
    case 5: { Shape s = sh(2, 8044, 2, 2); s.ext_counts = true; s.extended = 2; s.external = 1; s.skew = 1; l.rec = { build(s), build(s) }; break; }
    case 6: { Shape s = sh(2, 8058, 2, 3); s.n_ext = 2; Record r = build(s); for (auto& t : r.tr) set_be(t.ext[0], 20, 2, t.bits.size()); l.rec = { r }; l.em = em2; break; }
    case 7: { Shape s = sh(3, 8080, 2, 2); s.n_ext = 2; Record r = build(s); for (auto& t : r.tr) set_be(t.ext[0], 20, 2, t.bits.size()); l.rec = { r }; l.em = em2; break; }
    case 8: { Shape e = sh(2, 8058, 0, 1); e.trailer = 1; l.rec = { build(e), build(sh(0, 9058, 1, 2)), build(e), build(sh(3, 8048, 1, 2)) }; break; }
    case 9: { Shape s = sh(3, 8022, 2, 3); s.sets = 2; s.add = 2; l.rec = { build(s), build(s) }; break; }
    }
    l.finish();
}
static Layout& layout(int k)
{
    static Layout ls[n_layouts];
    if (ls[k].rec.empty()) make(k, ls[k]);
    return ls[k];
}
struct Result { size_t n = 0; bool thrown = false; };
// way 0: while a trace is left, 1: while a record is left, 2: both and the headers in between
// the first `known` traces must be the original ones; no more than `limit` may come
static Result drain(Ctx& c, Layout const& l, string const& p, int way, size_t known, size_t limit, size_t size)
{
    Result r;
    alloc_refused = 0;
    try {
        ISEGD f(p, l.em);
        c.step();
        try {
            while (way == 0 ? f.has_trace() : way == 1 ? f.has_record() : f.has_record() && f.has_trace()) {
                if (way == 2) { f.general_header(); f.general_header2(); f.channel_set_headers(); f.general_headerN(); f.general_header3(); f.extended_headers();
                    for (auto& b : blocks()) b.diff(f, nullptr); }
                Trace t = f.read_trace();
                c.step();
                if (r.n < known) {
                    string d = diff_trace(*l.of[r.n], *l.tr[r.n], t, l.em);
                    if (!d.empty()) c.fail(fmt("trace %zu: ", r.n) + d);
                }
                if (r.n >= limit) c.fail(fmt("%zu traces are complete, one more was delivered", limit));
                if (++r.n > size / 20 + 2) c.fail("reading does not end");
            }
        } catch (std::exception&) {
            r.thrown = true;
            // the reader stays safe to use
            for (int i = 0; i < 3; ++i) {
                try { f.has_record(); f.has_trace(); f.general_header2(); f.channel_set_headers(); f.read_trace(); } catch (std::exception&) {}
            }
        }
    } catch (std::exception&) { r.thrown = true; }
    if (alloc_refused) c.fail(fmt("a file of %zu bytes asks for %zu bytes of memory", size, alloc_refused));
    return r;
}
// every cut of every layout
static void truncated(Ctx& c)
{
    int k = c.pick(n_layouts);
    Layout& l = layout(k);
    size_t part = c.pick(32);
    c.shard();
    string p = c.path("f.sgd");
    size_t n = l.bytes.size();
    for (size_t cut = part; cut < n; cut += 32) {
        spew(p, l.bytes.substr(0, cut));
        size_t may = 0;
        while (may < l.end.size() && l.end[may] <= cut) ++may;
        // between two records and in a trailer nothing is missed
        bool hidden = false;
        for (size_t i = 0; i < l.rec.size(); ++i) hidden |= cut >= l.data_end[i] && cut <= l.rec_end[i];
        for (int way = 0; way < 3; ++way) {
            Result r = drain(c, l, p, way, l.tr.size(), may, cut);
            if (way == 0 && !hidden && !r.thrown) c.fail(fmt("layout %d of %zu bytes cut at %zu is not reported", k, n, cut));
            if (hidden && !r.thrown && r.n != may) c.fail(fmt("layout %d cut at %zu: %zu traces instead of %zu", k, cut, r.n, may));
            Hash h;
            h << k << cut << way << r.n << r.thrown;
            c.state(h.h);
        }
    }
}
// number of leading traces that do not depend on the byte at x
static size_t unaffected(Layout const& l, size_t x)
{
    size_t i = 0;
    while (i + 1 < l.rec.size() && l.rec_end[i] <= x) ++i;
    size_t n = 0;
    while (n < l.tr.size() && l.end[n] <= l.rec_start[i]) ++n; // earlier records
    if (l.rec[i].tr.size() && x >= l.start[n]) while (n < l.tr.size() && l.end[n] <= x) ++n; // earlier traces of the record
    return n;
}
// every value of every byte but the samples
static void corrupt(Ctx& c)
{
    int k = c.pick(n_layouts);
    Layout& l = layout(k);
    int x = c.pick((int)l.bytes.size());
    c.shard();
    // samples hold any value
    for (size_t i = 0; i < l.tr.size(); ++i) {
        size_t hdr = l.start[i] + 20 + 32 * l.tr[i]->ext.size();
        if ((size_t)x >= hdr && (size_t)x < l.end[i]) return;
    }
    string p = c.path("f.sgd"), b = l.bytes;
    size_t known = unaffected(l, x);
    for (int v = 0; v < 256; ++v) {
        if ((unsigned char)l.bytes[x] == v) continue;
        b[x] = v;
        spew(p, b);
        for (int way = 0; way < (c.thorough() ? 3 : 1); ++way) {
            Result r = drain(c, l, p, c.thorough() ? way : v % 3, known, (size_t)-1, b.size());
            Hash h;
            h << k << x << v << way << r.n << r.thrown;
            c.state(h.h);
        }
    }
}
// pairs of bytes of the headers at boundary values
static void corrupt_pairs(Ctx& c)
{
    int k = c.of({ 2, 4, 7 });
    Layout& l = layout(k);
    static vector<int> const vals { 0x00, 0x01, 0x10, 0x7f, 0x80, 0x99, 0xf0, 0xff };
    int head = (int)std::min<size_t>(l.start[0] + 40, 320);
    int x = c.pick(head);
    c.shard();
    string p = c.path("f.sgd");
    // the counts and sizes of the first two general headers with everything else
    static vector<int> const steer { 2, 3, 11, 27, 28, 29, 30, 31, 32 + 3, 32 + 4, 32 + 5, 32 + 6, 32 + 7, 32 + 8, 32 + 9, 32 + 10, 32 + 12, 32 + 15, 32 + 22, 32 + 23, 32 + 27, 32 + 29 };
    for (int y : steer) {
        if (y == x) continue;
        for (int v : vals) for (int w : vals) {
            if (!c.thorough() && (v * 3 + w + x + y) % 4) continue;
            string b = l.bytes;
            b[x] = v; b[y] = w;
            spew(p, b);
            Result r = drain(c, l, p, 2, 0, (size_t)-1, b.size());
            Hash h;
            h << k << x << y << v << w << r.n << r.thrown;
            c.state(h.h);
        }
    }
}
// a cut and a corrupt byte of the general headers together
static void cut_and_corrupt(Ctx& c)
{
    int k = c.of({ 2, 4 });
    Layout& l = layout(k);
    int x = c.pick(128);
    c.shard();
    string p = c.path("f.sgd");
    for (int v : { 0, 1, 0x0f, 0x7f, 0x80, 0xff })
        for (size_t cut = x + 1; cut < l.bytes.size(); cut += c.thorough() ? 1 : 13) {
            string b = l.bytes.substr(0, cut);
            b[x] = v;
            spew(p, b);
            Result r = drain(c, l, p, 0, 0, (size_t)-1, b.size());
            Hash h;
            h << k << x << v << cut << r.n << r.thrown;
            c.state(h.h);
        }
}
// things that are no SEG-D files
static void not_segd(Ctx& c)
{
    int kind = c.pick(3);
    c.shard();
    Layout l;
    string p = c.path("x.sgd");
    remove(p.c_str());
    if (kind == 0) { if (!drain(c, l, p, 0, 0, 0, 0).thrown) c.fail("opening a file that does not exist is not refused"); }
    if (kind == 1) { if (!drain(c, l, c.dir(), 0, 0, 0, 0).thrown) c.fail("opening a directory is not refused"); }
    if (kind == 2)
        for (int fill = 0; fill < 256; ++fill)
            for (int n : { 0, 1, 31, 32, 33, 63, 64, 96, 128, 1000, 5000 }) {
                spew(p, string(n, (char)fill));
                for (int way = 0; way < 3; ++way) {
                    Result r = drain(c, l, p, way, 0, (size_t)-1, n);
                    Hash h;
                    h << fill << n << way << r.n << r.thrown;
                    c.state(h.h);
                }
            }
}
int main(int argc, char** argv)
{
    return explore_main(argc, argv, { { "truncated", truncated }, { "corrupt", corrupt }, { "corrupt_pairs", corrupt_pairs }, { "cut_and_corrupt", cut_and_corrupt }, { "not_segd", not_segd } });
}
