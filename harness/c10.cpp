// C10: truncated or corrupt SEG-Y input is reported, never misread.
#include "oom.hpp"
#include "segy_layouts.hpp"
#include <unistd.h>
using namespace segy;

static bool changed(Ctx& c, string& last)
{
    string key;
    for (size_t i = 0; i < c.pos_; ++i) key += (char)c.choices_[i].v;
    if (key == last) return false;
    last = key;
    return true;
}
// reads the whole file in one of the ways; exp: the traces that may be delivered (in this order), none if null
// way: 0 traces, 1 headers, 2 alternating, 3 traces after asking twice
static int drain(Ctx& c, sedaman::ISEGY& r, int way, vector<MTrace> const* exp, size_t may, size_t size, bool& thrown, vector<int> const* order = nullptr)
{
    int n = 0;
    thrown = false;
    try {
        while (r.has_trace()) {
            if (way == 3) r.has_trace();
            bool hdr = way == 1 || (way == 2 && n % 2 == 0);
            string d;
            if (hdr) {
                auto h = r.read_header();
                c.step();
                if (exp) d = (size_t)n >= may ? "a header was delivered beyond the complete traces" : diff_hdr((*exp)[order ? (*order)[n] : n].hdr, h);
            } else {
                auto t = r.read_trace();
                c.step();
                if (exp) d = (size_t)n >= may ? "a trace was delivered beyond the complete traces" : diff_trace((*exp)[order ? (*order)[n] : n], t);
            }
            if (!d.empty()) c.fail(fmt("trace %d: ", n) + d);
            ++n;
            if ((size_t)n > size / 240 + 2) c.fail("reading does not end");
        }
    } catch (std::exception&) { thrown = true; }
    return n;
}

// memory is only asked for in proportion to the file (a few kilobytes here)
static void proportion(Ctx& c)
{
    if (alloc_refused) c.fail(fmt("a small file asks for %zu bytes of memory", alloc_refused));
}

// every cut of every layout class
static void truncated(Ctx& c)
{
    Layout l = pick_layout(c, { 3 }, c.thorough() ? vector<int32_t> { BE, LE } : vector<int32_t> { BE }, false);
    int sorted = c.pick(2);
    c.shard();
    if (!c.thorough() && (l.n_ext + l.n_trail > 3 || l.add == 2)) return;
    vector<int> lens = { 3, 1, 4 };
    MFile f = build(l, 3, lens);
    string b = f.bytes(), p = c.path("f.sgy");
    vector<MTrace> exp;
    for (size_t i = 0; i < f.tr.size(); ++i) exp.push_back(f.expected(i));
    auto pos = f.trace_pos();
    vector<int> order = { 2, 1, 0 };
    spew(p, b);
    // cut from the end: the file only shrinks
    // thorough, and the layouts without optional blocks: every byte; otherwise every byte of the binary header, of the
    // trace data and around every block boundary, and every 97th byte inside text
    bool dense = c.thorough() || (!l.n_ext && !l.n_trail);
    for (size_t cut = b.size() - 1;; --cut) {
        if (!dense) {
            bool in = (cut >= 3190 && cut < 3610) || (cut + 10 >= pos[0] && cut <= pos[3] + 10) || cut % 97 == 0;
            for (size_t k = 3600; k <= b.size(); k += 3200) in |= cut + 3 >= k && cut <= k + 3;
            for (size_t k = pos[3]; k <= b.size(); k += 3200) in |= cut + 3 >= k && cut <= k + 3;
            if (!in) continue;
        }
        c.require(truncate(p.c_str(), cut) == 0, "cannot truncate");
        size_t may = 0;
        while (may < exp.size() && pos[may + 1] <= cut) ++may;
        bool thrown = false;
        int n = 0;
        // in the first 3600 bytes one way of reading is enough: the file header is incomplete
        for (int way = 0; way < (cut < 3600 ? 1 : 3); ++way) {
            try {
                c.step();
                if (sorted) {
                    // all traces of the cut file are known on opening, so nothing but complete traces in key order remains
                    vector<int> ord;
                    char const* key = l.wide ? "FFID" : "KEY";
                    sedaman::ISEGYSorted1D r(p, key, f.map);
                    vector<Value> ks = r.get_keys();
                    if (ks.size() > may) c.fail(fmt("%zu traces are listed, %zu are complete", ks.size(), may));
                    for (size_t i = 0; i < ks.size(); ++i) ord.push_back(l.wide ? (int)i : (int)(ks.size() - 1 - i));
                    n = drain(c, r, way, &exp, ks.size(), cut, thrown, &ord);
                } else {
                    sedaman::ISEGY r(p, f.map);
                    if (cut < 3600) c.fail(fmt("a file of %zu bytes was opened", cut));
                    n = drain(c, r, way, &exp, may, cut, thrown);
                }
            } catch (std::exception&) { thrown = true; }
            // inside a trace the damage has to be noticed, unless trailer stanzas hide where the data end
            if (!thrown && !l.n_trail && cut > pos[0] && cut != pos[may]) c.fail(fmt("cut at %zu (inside trace %zu) is not reported", cut, may));
        }
        Hash h;
        h << b << cut << sorted << n << thrown;
        c.state(h.h);
        proportion(c);
        if (cut == 0) break;
    }
}
// any value in any byte of the file headers that steers reading (all bytes of the binary header, of the end stanzas)
static void corrupt(Ctx& c)
{
    struct L { int rev; bool fixed; int n_ext; bool ext_term; int gap, add, n_trail; bool trail_term; };
    static vector<L> const ls = { { 0, true, 0, false, -1, 0, 0, false }, { 1, false, 1, false, -1, 0, 0, false }, { 1, true, 2, true, -1, 0, 0, false },
        { 2, true, 1, false, 240, 1, 1, false }, { 2, false, 0, false, -1, 1, 1, false }, { 2, true, 0, false, -1, 0, 1, true },
        { 2, false, 1, true, 0, 2, 2, true } };
    static MFile f;
    static string last, b;
    int li = c.pick((int)ls.size());
    int32_t e = c.of({ LE, BE });
    int off = c.pick(400);
    c.shard();
    L const& q = ls[li];
    string p = c.path("f.sgy");
    Layout l {};
    l.rev = q.rev; l.endian = e; l.code = 3; l.fixed = q.fixed; l.n_ext = q.n_ext; l.ext_term = q.ext_term; l.gap = q.gap; l.add = q.add;
    l.n_trail = q.n_trail; l.trail_term = q.trail_term;
    f = build(l, 3, { 3, 1, 4 });
    b = f.bytes();
    // bytes nothing depends on need only a few values
    static vector<int> const few = { 0, 1, 0x7f, 0x80, 0xff };
    bool steering = (off >= 20 && off < 26) || (off >= 68 && off < 72) || (off >= 96 && off < 100) || off >= 300;
    for (int k = 0; k < (steering ? 256 : (int)few.size()); ++k) {
        int v = steering ? k : few[k];
        string d = b;
        d[3200 + off] = (char)v;
        spew(p, d);
        for (int way = 0; way < 3; ++way) {
            bool thrown = false;
            int n = 0;
            try {
                c.step();
                if (way == 2) {
                    sedaman::ISEGYSorted1D r(p, "KEY", f.map);
                    n = drain(c, r, 0, nullptr, 0, d.size(), thrown);
                } else {
                    sedaman::ISEGY r(p, f.map);
                    n = drain(c, r, way, nullptr, 0, d.size(), thrown);
                    r.text_headers(); r.trailer_stanzas();
                }
            } catch (std::exception&) { thrown = true; }
            Hash h;
            h << li << e << off << v << way << n << thrown;
            c.state(h.h);
            proportion(c);
        }
    }
    (void)last;
}
// pairs of bytes that are interpreted together, at boundary values
static void corrupt_pairs(Ctx& c)
{
    static int const steer[] = { 20, 21, 24, 25, 68, 69, 70, 71, 96, 99, 300, 302, 303, 304, 305, 306, 307, 308, 309, 312, 318, 319, 320, 321, 326, 327, 328, 329, 330, 331 };
    int n = sizeof steer / sizeof *steer;
    int shape = c.pick(3);
    int32_t e = c.of({ LE, BE });
    int i = c.pick(n), j = c.pick(n);
    c.shard();
    if (i >= j) return;
    Layout l {};
    l.rev = 2; l.endian = e; l.code = 3; l.fixed = shape != 1; l.n_ext = 1; l.gap = shape == 2 ? 240 : -1; l.add = 1; l.n_trail = shape; l.trail_term = shape == 1;
    MFile f = build(l, 3, { 3, 1, 4 });
    string b = f.bytes(), p = c.path("f.sgy");
    static vector<int> const vals = { 0, 1, 2, 0x7f, 0x80, 0xff };
    for (int x : vals) for (int y : vals) {
        string d = b;
        d[3200 + steer[i]] = (char)x;
        d[3200 + steer[j]] = (char)y;
        spew(p, d);
        bool thrown = false;
        int k = 0;
        try {
            sedaman::ISEGY r(p, f.map);
            c.step();
            k = drain(c, r, 2, nullptr, 0, d.size(), thrown);
        } catch (std::exception&) { thrown = true; }
        Hash h;
        h << shape << e << steer[i] << steer[j] << x << y << k << thrown;
        c.state(h.h);
        proportion(c);
    }
}
// any value in any byte of the trace headers that steers reading (number of samples), and of the stanza marks
static void corrupt_body(Ctx& c)
{
    int shape = c.pick(4);
    int32_t e = c.of({ LE, BE });
    Layout l {};
    l.rev = shape ? 2 : 1; l.endian = e; l.code = 3; l.n_ext = 1; l.ext_term = true; l.gap = -1; l.add = shape ? 1 : 0; l.n_trail = shape % 3;
    l.trail_term = shape == 2;
    l.wide = shape == 3;
    int t = c.pick(3), k = c.pick(12);
    c.shard();
    MFile f = build(l, 3, { 3, 1, 4 });
    string b = f.bytes(), p = c.path("f.sgy");
    size_t at;
    if (k < 2) at = f.trace_pos()[t] + 114 + k;
    else if (k < 6) { if (!l.add) return; at = f.trace_pos()[t] + 240 + 136 + k - 2; }
    else if (k < 9) at = 3600 + (k - 6) * 7;
    else { if (!l.n_trail) return; at = f.trace_pos()[3] + 3200 * (l.n_trail - 1) + (k - 9) * 7; }
    for (int v = 0; v < 256; ++v) {
        string d = b;
        d[at] = (char)v;
        spew(p, d);
        for (int way = 0; way < 2; ++way) {
            bool thrown = false;
            int n = 0;
            try {
                sedaman::ISEGY r(p, f.map);
                c.step();
                n = drain(c, r, way, nullptr, 0, d.size(), thrown);
            } catch (std::exception&) { thrown = true; }
            Hash h;
            h << shape << e << at << v << way << n << thrown;
            c.state(h.h);
            proportion(c);
        }
    }
}
// things that are not SEG-Y files at all: missing, empty, directories, uniform contents of every size class
static void not_segy(Ctx& c)
{
    int kind = c.pick(4);
    int fill = c.of({ 0, 1, 2, 0x20, 0x40, 0x7f, 0x80, 0xff });
    c.shard();
    string p = c.path("x.sgy");
    remove(p.c_str());
    if (kind == 1) p = c.dir();
    if (kind >= 2) spew(p, string(kind == 2 ? 3600 : 3600 + 3200 + 5000, (char)fill));
    bool thrown = false;
    int n = 0;
    try {
        sedaman::ISEGY r(p);
        c.step();
        n = drain(c, r, 0, nullptr, 0, 20000, thrown);
    } catch (std::exception&) { thrown = true; }
    if (kind < 2 && !thrown) c.fail("opening something that is not a file is not refused");
    Hash h;
    h << kind << fill << n << thrown;
    c.state(h.h);
    proportion(c);
}
int main(int argc, char** argv)
{
    return explore_main(argc, argv, { { "truncated", truncated }, { "corrupt", corrupt }, { "corrupt_pairs", corrupt_pairs }, { "corrupt_body", corrupt_body }, { "not_segy", not_segy } });
}
