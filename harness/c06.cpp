// C06: SEG-Y sequential reading delivers each trace once, in order.
#include "large_files.hpp"
using namespace segy;

enum { HAS, HDR, TRC };
// all operation sequences; after the last trace one more read is refused
static void histories(Ctx& c)
{
    Layout l = pick_layout(c, { 3 }, c.thorough() ? vector<int32_t> { LE, BE } : vector<int32_t> { BE }, false);
    int n = c.pick(c.thorough() ? 5 : 4);
    int shape = c.pick(2);
    c.shard();
    if (l.trail_term && n == 0) return;
    vector<int> lens;
    for (int i = 0; i < n; ++i) lens.push_back(shape ? (i * 2 + 1) % 4 : 3 - i % 2 * 3);
    MFile f = build(l, shape ? 2 : 0, lens);
    string p = c.path("f.sgy");
    // the file is the same for all histories of one layout
    static string last;
    static vector<MTrace> exp;
    static Hash base;
    string key;
    for (size_t i = 0; i < c.pos_; ++i) key += (char)c.choices_[i].v;
    if (key != last) {
        string b = f.bytes();
        spew(p, b);
        last = key;
        exp.clear();
        for (int i = 0; i < n; ++i) exp.push_back(f.expected(i));
        base = Hash();
        base << b;
    }
    sedaman::ISEGY r(p, f.map);
    int pos = 0;
    string log;
    int const depth = n + (c.thorough() ? 3 : 2);
    for (int s = 0; s < depth; ++s) {
        int op = c.pick(3);
        log += "HhT"[op];
        c.step();
        if (op == HAS) {
            bool h = r.has_trace();
            if (h != (pos < n)) c.fail(fmt("%s: has_trace is %d with %d of %d traces read", log.c_str(), h, pos, n));
        } else if (pos < n) {
            string d;
            if (op == HDR) d = diff_hdr(exp[pos].hdr, r.read_header());
            else d = diff_trace(exp[pos], r.read_trace());
            if (!d.empty()) c.fail(fmt("%s: trace %d: ", log.c_str(), pos) + d);
            ++pos;
        } else {
            bool ex = false;
            try {
                if (op == HDR) r.read_header(); else r.read_trace();
            } catch (std::exception&) { ex = true; }
            if (!ex) c.fail(log + ": a trace was delivered after the last one");
            break;
        }
        Hash h = base;
        h << n << shape << pos << op;
        c.state(h.h);
    }
    c.note(log);
}
// longer files: has/header/trace patterns repeated over many traces
static void long_run(Ctx& c)
{
    Layout l = pick_layout(c, { 7 }, { LE }, false);
    int n = c.of({ 17, 70 });
    c.shard();
    int a = c.pick(9), b = c.pick(3);
    vector<int> lens;
    for (int i = 0; i < n; ++i) lens.push_back((i * i + 1) % 7);
    MFile f = build(l, 5, lens);
    string p = c.path("f.sgy");
    spew(p, f.bytes());
    sedaman::ISEGY r(p, f.map);
    for (int pos = 0; pos < n; ++pos) {
        for (int k = 0; k < b; ++k) c.require(r.has_trace(), "has_trace is false before the last trace");
        bool hdr = a == 8 ? pos % 5 == 3 : (a >> (pos % 3)) & 1;
        string d = hdr ? diff_hdr(f.expected(pos).hdr, r.read_header()) : diff_trace(f.expected(pos), r.read_trace());
        c.step(1 + b);
        if (!d.empty()) c.fail(fmt("trace %d: ", pos) + d);
    }
    c.require(!r.has_trace(), "has_trace is true after the last trace");
    Hash h;
    h << f.bytes() << a << b;
    c.state(h.h);
}
// files of more than 2 and 4 GB: all operation sequences around the trace that lies over the boundary, headers before and after
static void large_files(Ctx& c)
{
    string p = c.path("large.sgy");
    Large x = large(c, p, false);
    if (!x.ok) { std::remove(p.c_str()); return; }
    struct Gone { string p; ~Gone() { std::remove(p.c_str()); } } gone { p };
    sedaman::ISEGY r(p, x.f.map);
    string d = diff_text(x.f.trailer, r.trailer_stanzas(), "trailer stanzas");
    if (!d.empty()) c.fail(x.desc + ": " + d);
    size_t n = x.hdr.size(), pos = 0, from = x.cross > 1 ? x.cross - 1 : 0;
    auto hdr = [&] {
        c.step();
        string e = diff_hdr(x.hdr[pos], r.read_header());
        if (!e.empty()) c.fail(x.desc + fmt(": header of trace %zu: ", pos) + e);
        ++pos;
    };
    while (pos < from) hdr();
    string log;
    int all = n > 10 ? c.of(c.thorough() ? vector<int> { 0222, 0120, 0012, 0201 } : vector<int> { 0222, 0012 }) : 0; // long files: a few patterns
    for (int s = 0; s < (n > 10 ? 3 : 5); ++s) {
        int op = n > 10 ? all >> 3 * s & 7 : c.pick(3);
        log += "HhT"[op];
        c.step();
        if (op == HAS) { if (r.has_trace() != (pos < n)) c.fail(x.desc + fmt(": has_trace with %zu traces read", pos)); }
        else if (pos >= n) break;
        else if (op == HDR || !x.small(pos)) hdr();
        else {
            string e = diff_trace(x.expected(pos), r.read_trace());
            if (!e.empty()) c.fail(x.desc + fmt(": trace %zu: ", pos) + e);
            ++pos;
        }
        Hash h;
        h << x.desc << pos << op;
        c.state(h.h);
    }
    while (pos < n) { c.require(r.has_trace(), x.desc + ": has_trace is false before the last trace"); hdr(); }
    c.require(!r.has_trace(), x.desc + ": has_trace is true after the last trace");
    bool ex = false;
    try { r.read_header(); } catch (std::exception&) { ex = true; }
    c.require(ex, x.desc + ": a trace was delivered after the last one");
}
int main(int argc, char** argv)
{
    return explore_main(argc, argv, { { "histories", histories }, { "long_run", long_run }, { "large_files", large_files } });
}
