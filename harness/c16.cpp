// C16: SEG-D reading visits every trace of every record in order.
#include "segd_model.hpp"
#include "sparse.hpp"
using namespace segd;

struct File { vector<Record> rec; string path; };
// model cursor over the records that have traces
struct Cursor {
    vector<Record> const& rec;
    size_t i = 0, k = 0;
    Cursor(vector<Record> const& r) : rec(r) { skip(); }
    void skip() { while (i < rec.size() && k == rec[i].tr.size()) { ++i; k = 0; } }
    bool done() const { return i == rec.size(); }
    void next() { ++k; skip(); }
};
static string save(Ctx& c, vector<Record> const& m)
{
    string p = c.path("f.sgd"), b;
    for (auto& r : m) b += r.bytes();
    spew(p, b);
    return p;
}
enum { HAS_REC, HAS_TR, HEADERS, TRACE };
static string op(int o, ISEGD& r, Cursor& m, Ctx& c)
{
    c.step();
    string d;
    switch (o) {
    case HAS_REC:
        if (r.has_record() == m.done()) return m.done() ? "a record is left after the last trace" : "no record is left before the last trace";
        break;
    case HAS_TR:
        if (r.has_trace() == m.done()) return m.done() ? "a trace is left after the last one" : "no trace is left before the last one";
        break;
    case HEADERS:
        if (!m.done() && !(d = diff_headers(m.rec[m.i], r)).empty()) return d;
        break;
    case TRACE: {
        if (m.done()) {
            try { r.read_trace(); } catch (std::exception&) { return ""; }
            return "a trace was delivered after the last one";
        }
        if (!(d = diff_trace(m.rec[m.i], m.rec[m.i].tr[m.k], r.read_trace())).empty()) return fmt("record %zu trace %zu: ", m.i, m.k) + d;
        m.next();
        break;
    }
    }
    return "";
}
static Shape variant(int v, int i)
{
    Shape s;
    s.seed = 3 * i + v;
    switch (v) {
    case 0: s.rev = 0; s.chans = 2; break;
    case 1: s.rev = 1; s.sets = 2; s.skew = 1; s.extended = 1; break;
    case 2: s.rev = 2; s.scans = 2; s.trailer = 1; s.n_ext = 1; s.external = 1; break;
    case 3: s.rev = 3; s.chans = 2; s.add = 1; s.trailer = 2; s.samples = 3; s.format = 9036; break;
    case 4: s.rev = 2; s.chans = 0; s.trailer = i % 2; break; // no traces
    }
    return s;
}
static int const n_variants = 5;
// all operation sequences over all sequences of record kinds
static void histories(Ctx& c)
{
    int n = 1 + c.pick(2);
    vector<Record> m;
    for (int i = 0; i < n; ++i) m.push_back(build(variant(c.pick(n_variants), i)));
    c.shard();
    static string last;
    static string path;
    string key;
    for (size_t i = 0; i < c.pos_; ++i) key += (char)c.choices_[i].v;
    if (key != last) { path = save(c, m); last = key; }
    size_t total = 0;
    for (auto& r : m) total += r.tr.size();
    ISEGD r(path);
    Cursor cur(m);
    string log;
    Hash base;
    base << key;
    int depth = (int)total + (c.thorough() ? 3 : 2);
    for (int s = 0; s < depth; ++s) {
        int o = c.pick(4);
        log += "RtHT"[o];
        bool end = cur.done() && o == TRACE;
        string d = op(o, r, cur, c);
        if (!d.empty()) c.fail(log + ": " + d);
        Hash h = base;
        h << o << cur.i << cur.k;
        c.state(h.h);
        if (end) break;
    }
    c.note(log);
}
// three and more records of all kinds, queried everywhere or nowhere
static void records(Ctx& c)
{
    int n = c.thorough() ? 3 + c.pick(2) : 3;
    vector<int> v;
    for (int i = 0; i < n; ++i) v.push_back(c.pick(n_variants));
    c.shard();
    int q = c.pick(4);
    vector<Record> m;
    for (int i = 0; i < n; ++i) m.push_back(build(variant(v[i], i)));
    string p = save(c, m);
    ISEGD r(p);
    Cursor cur(m);
    for (int step = 0; step < 200; ++step) {
        if (q & 1) { string d = op(HAS_REC, r, cur, c); if (d.empty()) d = op(HAS_TR, r, cur, c); if (!d.empty()) c.fail(fmt("step %d: ", step) + d); }
        if (q & 2) { string d = op(HEADERS, r, cur, c); if (!d.empty()) c.fail(fmt("step %d: ", step) + d); }
        bool end = cur.done();
        string d = op(TRACE, r, cur, c);
        if (!d.empty()) c.fail(fmt("step %d: ", step) + d);
        if (end) break;
        Hash h;
        for (int x : v) h << x;
        h << cur.i << cur.k << q;
        c.state(h.h);
    }
}
// shapes: everything that lies between the traces, two records of the same shape and one of another
static void shapes(Ctx& c)
{
    Shape s;
    s.rev = c.of({ 0, 1, 2, 3 });
    s.scans = 1 + c.pick(2);
    s.sets = 1 + c.pick(2);
    s.chans = 1 + c.pick(2);
    s.skew = c.pick(3);
    c.shard();
    s.extended = c.pick(2);
    s.external = c.pick(3);
    s.trailer = s.rev ? c.of({ 0, 1, 3 }) : 0;
    s.n_ext = s.rev ? c.pick(3) : 0;
    s.ext_counts = s.rev ? c.flag() : false;
    s.add = s.rev ? c.pick(2) : 0;
    s.samples = c.of({ 1, 4 });
    s.format = s.samples == 4 ? 8015 : 8036;
    Shape t = variant(2, 7), u = s;
    u.seed = 11;
    vector<Record> m { build(s), build(u), build(t), build(s) };
    string d = diff_file(m, save(c, m), {}, &c);
    if (!d.empty()) c.fail(d);
    Hash h;
    h << m[0].bytes();
    c.state(h.h);
}
// channel sets with different numbers of channels, some empty
static void uneven(Ctx& c)
{
    int rev = c.of({ 0, 2, 3 });
    int scans = 1 + c.pick(2), sets = 1 + c.pick(3);
    Shape s;
    s.rev = rev; s.scans = scans; s.sets = sets; s.chans = 0; s.trailer = rev ? 1 : 0;
    Record m = build(s);
    c.shard();
    int ord = c.pick(2);
    unsigned n = 0;
    for (int a = 0; a < scans; ++a)
        for (int b = 0; b < sets; ++b) {
            int k = c.pick(3);
            string& h = m.sets[a][b];
            if (rev > 2) set_be(h, 20, 3, k); else set_bcd(h, 16, 4, k);
            for (int j = 0; j < k; ++j, ++n) m.tr.push_back(make_trace(m, a + 1, b + 1, j + 1, { some_bits(8058, n) }, rev ? 1 : 0, n));
        }
    if (ord) std::reverse(m.tr.begin(), m.tr.end()); // traces come in any order
    Record q = build(variant(1, 3));
    vector<Record> v { m, q, m };
    if (c.flag()) v = { q, m };
    string d = diff_file(v, save(c, v), {}, &c);
    if (!d.empty()) c.fail(d);
    Hash h;
    h << m.bytes();
    c.state(h.h);
}
// many records and many traces
static void many(Ctx& c)
{
    int n = c.of({ 10, 50 });
    int v = c.pick(n_variants);
    c.shard();
    vector<Record> m;
    for (int i = 0; i < n; ++i) m.push_back(build(variant(i % 7 == 3 ? (v + 1) % n_variants : v, i)));
    string d = diff_file(m, save(c, m), {}, &c);
    if (!d.empty()) c.fail(d);
}
static void big(Ctx& c)
{
    int rev = c.of({ 0, 2, 3 });
    int chans = c.of({ 99, 100, 255, 256, 999, 1000, 9999, 66000 }); // the last one: in more than one set
    c.shard();
    Shape s;
    s.rev = rev; s.chans = chans; s.sets = 2;
    if (chans > 9999) { s.chans = 8251; s.sets = 8; if (!c.thorough() && rev == 0) return; }
    Record a = build(s);
    vector<Record> m { a, build(variant(1, 1)), a };
    string d = diff_file(m, save(c, m), {}, &c);
    if (!d.empty()) c.fail(d);
}
// files of more than 2 and 4 GB: the boundary in every 32-byte block of a record that follows a long trailer
static void large_files(Ctx& c)
{
    uint64_t B = c.of<uint64_t>({ 1ull << 31, 1ull << 32 });
    bool r3 = c.flag();
    Record a = build(variant(r3 ? 3 : 2, 0)), b = build(variant(r3 ? 2 : 3, 1)), e = build(variant(1, 2));
    uint64_t len = a.bytes().size() - 32 * a.trailer;
    int d = c.pick((int)b.bytes().size() / 32 + 3);
    int q = c.pick(3);
    if (!r3 && !c.thorough() && (d % 4 || q != 1)) return; // many records
    c.shard();
    // the records before the boundary: one with a long trailer, or many with 2 MB each (16-bit count)
    vector<Record> m;
    vector<uint64_t> at;
    string p = c.path("large.sgd");
    Sparse f(p);
    struct Gone { string p; ~Gone() { std::remove(p.c_str()); } } gone { p };
    uint64_t pos = 0;
    auto add = [&](Record r, uint64_t blocks) {
        r.trailer = (int)blocks;
        r.fix();
        r.trailer = 0;
        string s = r.bytes();
        f.put(pos, s);
        at.push_back(pos);
        pos += s.size() + 32 * blocks;
        m.push_back(r);
        f.size(pos);
    };
    uint64_t goal = B - 32 * d;
    if (r3) add(a, (goal - len) / 32);
    else while (goal - pos > len + 32) add(a, std::min<uint64_t>(65535, (goal - pos - len) / 32));
    at.push_back(pos);
    add(b, 5);
    add(e, 0);
    if (!f.ok) return;
    ISEGD r(p);
    Cursor cur(m);
    for (;;) {
        string x;
        bool end = cur.done();
        if (q == 1) x = op(HAS_REC, r, cur, c);
        if (q == 2) { x = op(HAS_TR, r, cur, c); if (x.empty()) x = op(HEADERS, r, cur, c); }
        if (x.empty()) x = op(TRACE, r, cur, c);
        if (!x.empty()) c.fail(fmt("record over byte %llu at %llu: ", (unsigned long long)B, (unsigned long long)at[at.size() - 2]) + x);
        if (end) break;
        Hash h;
        h << B << r3 << d << q << cur.i << cur.k;
        c.state(h.h);
    }
}
int main(int argc, char** argv)
{
    return explore_main(argc, argv, { { "histories", histories }, { "records", records }, { "shapes", shapes }, { "uneven", uneven },
        { "many", many }, { "big", big }, { "large_files", large_files } });
}
