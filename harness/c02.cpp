// C02: SEG-Y trace header fields survive write then read, for any header map.
#include <set>
#include "segy_model.hpp"
using namespace segy;

// where a map entry lives: writer revision and index of the trace header (0 main, 1.. additional)
struct Place { int rev, idx, add; };
static vector<Place> const& places()
{
    static vector<Place> const p = { { 0, 0, 0 }, { 1, 0, 0 }, { 2, 0, 0 }, { 2, 0, 1 }, { 2, 1, 1 }, { 2, 1, 2 }, { 2, 2, 2 }, { 2, 3, 3 } };
    return p;
}
static MFile file_for(Place const& p, int32_t endian)
{
    MFile f;
    f.text = { text_block('A', 0) };
    Bin b = {};
    b.format_code = 3;
    b.endianness = endian;
    b.samp_per_tr = 2;
    b.fixed_tr_length = p.rev ? 1 : 0;
    if (p.rev == 2) b.SEGY_rev_major_ver = 2;
    b.max_num_add_tr_headers = p.add;
    f.bin = derived_bin(p.rev, b, 1, 0);
    for (int i = 0; i <= p.add; ++i) f.map.push_back({ fmt("SEG0000%d", i), {} });
    return f;
}
static void roundtrip(Ctx& c, int rev, MFile const& f)
{
    string p = c.path("f.sgy");
    {
        Writer w(rev, p, f.text, f.bin, {}, f.map);
        for (auto& t : f.tr) { w.write(t); c.step(); }
    }
    string d = diff(f.bytes(), slurp(p));
    if (!d.empty()) c.fail("written file: " + d);
    check_read(c, p, f);
    // header-only reading gives the same values
    sedaman::ISEGY r(p, f.map);
    for (size_t i = 0; i < f.tr.size(); ++i) {
        string e = diff_hdr(f.expected(i).hdr, r.read_header());
        c.step();
        if (!e.empty()) c.fail(fmt("read_header: trace %zu: ", i) + e);
    }
    // fields keep their value (not only their bit pattern)
    for (size_t i = 0; i < f.tr.size(); ++i) {
        Hdr e = f.expected(i).hdr;
        Hash h;
        h << rev << f.bin.endianness << f.bin.max_num_add_tr_headers;
        for (auto& m : f.map)
            for (auto& q : m.second) {
                h << q.first << q.second.second << fld_bits(q.second.second, e[q.second.first]);
                if (f.tr[i].hdr.count(q.second.first) && !val_same(e[q.second.first], f.tr[i].hdr.at(q.second.first)) && f.tr[i].hdr.at(q.second.first).index() == e[q.second.first].index())
                    c.fail("harness: value not representable: " + q.second.first);
            }
        c.state(h.h);
    }
}

// one field: type x offset x place x byte order; one trace per boundary value
static void single(Ctx& c)
{
    Place p = c.of(places());
    int32_t e = c.of({ LE, BE });
    VT t = c.of(all_vt());
    int w = vt_size(t);
    bool some = p.rev == 1 || (p.rev == 2 && p.add != 1); // all offsets in three places, edge offsets elsewhere
    vector<int> offs;
    for (int o = 0; o + w <= 240; ++o)
        if (!some || c.thorough() || o < 9 || o + w > 231 || (o > 110 && o < 118)) offs.push_back(o);
    int off = c.of(offs);
    c.shard();
    MFile f = file_for(p, e);
    f.map[p.idx].second[off] = { "X", t };
    int k = 0;
    for (auto& v : fld_alphabet(t)) {
        MTrace m;
        m.hdr["X"] = v;
        m.hdr["OTHER"] = (int64_t)77; // not in the map: ignored
        m.smp = { 1.0 + k, -5.0 };
        f.tr.push_back(m);
        ++k;
    }
    c.note(fmt("rev %d header %d type %d offset %d", p.rev, p.idx, (int)t, off));
    roundtrip(c, p.rev, f);
}

// two touching fields of any two types
static void pairs(Ctx& c)
{
    Place p = c.of({ Place { 0, 0, 0 }, Place { 2, 1, 1 }, Place { 2, 0, 1 } });
    int32_t e = c.of({ LE, BE });
    VT a = c.of(all_vt()), b = c.of(all_vt());
    int at = c.pick(3);
    c.shard();
    MFile f = file_for(p, e);
    int wa = vt_size(a), wb = vt_size(b);
    int off = at == 0 ? 0 : at == 1 ? 113 : 240 - wa - wb;
    f.map[p.idx].second[off] = { "A", a };
    f.map[p.idx].second[off + wa] = { "B", b };
    auto va = fld_alphabet(a), vb = fld_alphabet(b);
    for (size_t i = 0; i < va.size(); ++i)
        for (size_t j = 0; j < vb.size(); ++j) {
            if (i != j && i > 4 && j > 4) continue;
            MTrace m;
            m.hdr["A"] = va[i];
            m.hdr["B"] = vb[j];
            m.smp = { -1, -1 };
            f.tr.push_back(m);
        }
    roundtrip(c, p.rev, f);
}

// the same name in the main and in an additional header; one field in each of three headers
static void across(Ctx& c)
{
    int add = 1 + c.pick(3);
    int32_t e = c.of({ 0, LE, BE });
    VT a = c.of(all_vt()), b = c.of(all_vt());
    bool same_name = c.flag();
    c.shard();
    MFile f = file_for({ 2, 0, add }, e);
    f.map[0].second[8] = { "A", a };
    f.map[add].second[16] = { same_name ? "A" : "B", b };
    if (add > 1) f.map[1].second[232] = { "C", VT::int64_t };
    for (int k = 0; k < 4; ++k) {
        MTrace m;
        // small values are representable in every type
        int64_t v = k * 5;
        m.hdr["A"] = same_name ? (vt_real(b) ? Value((double)v) : Value(v)) : (vt_real(a) ? Value((double)v) : Value(v));
        if (!same_name) m.hdr["B"] = vt_real(b) ? Value((double)(v + 1)) : Value((int64_t)(v + 1));
        m.hdr["C"] = INT64_MIN + v;
        m.smp = { (double)k, 0 };
        f.tr.push_back(m);
    }
    roundtrip(c, 2, f);
}

// every subset of fields set, in every sequence of three traces: nothing leaks from one trace to the next
static void subsets(Ctx& c)
{
    Place p = c.of(places());
    int32_t e = c.of({ LE, BE });
    int m0 = c.pick(8), m1 = c.pick(8);
    c.shard();
    int m2 = c.pick(8);
    MFile f = file_for(p, e);
    auto& m = f.map[p.idx].second;
    m[0] = { "A", VT::int24_t };
    m[3] = { "B", VT::ieee_double };
    m[11] = { "C", VT::uint16_t };
    if (p.idx && p.add > 1) f.map[p.idx == 1 ? 2 : 1].second[5] = { "A", VT::int32_t };
    for (int s : { m0, m1, m2 }) {
        MTrace t;
        if (s & 1) t.hdr["A"] = (int64_t)-8388608 + s;
        if (s & 2) t.hdr["B"] = -1.5e300 * s;
        if (s & 4) t.hdr["C"] = (int64_t)65535 - s;
        t.smp = { 3, 4 };
        f.tr.push_back(t);
    }
    roundtrip(c, p.rev, f);
}

// integers given for real fields and integral reals given for integer fields
static void mixed_kind(Ctx& c)
{
    Place p = c.of(places());
    int32_t e = c.of({ LE, BE });
    VT t = c.of(all_vt());
    c.shard();
    MFile f = file_for(p, e);
    f.map[p.idx].second[100] = { "X", t };
    // within the range of the field, and exact in a double
    int w = vt_real(t) ? 54 : std::min(vt_size(t) * 8 - vt_signed(t), 54);
    std::set<int64_t> vs { 0, 1, 2, 100, 127 };
    for (int b = 7; b < w; ++b)
        for (int64_t v : { (int64_t)1 << b, ((int64_t)1 << b) + 1, ((int64_t)2 << b) - 1, ((int64_t)2 << b) - 3 }) if (v <= (int64_t)1 << 53 && (b < w - 1 || v < (int64_t)1 << w)) vs.insert(v);
    if (vt_real(t) || vt_signed(t))
        for (int64_t v : std::set<int64_t>(vs)) vs.insert(-v);
    for (int64_t v : vs) {
        MTrace m;
        m.hdr["X"] = vt_real(t) ? Value(v) : Value((double)v);
        m.smp = { 1, 2 };
        f.tr.push_back(m);
    }
    roundtrip(c, p.rev, f);
}

// the built-in maps: each standard field alone with each boundary value, and all of them together
static void builtin(Ctx& c)
{
    int rev = c.pick(3);
    int32_t e = c.of({ LE, BE });
    int add = rev == 2 ? c.pick(2) : 0;
    // field index, or all together
    vector<std::pair<int, std::pair<uint32_t, std::pair<string, VT>>>> flds;
    for (int i = 0; i <= add; ++i) for (auto& q : std_map()[i].second) flds.push_back({ i, q });
    int k = c.pick((int)flds.size() + 1);
    c.shard();
    MFile f = file_for({ rev, 0, add }, e);
    f.map = std_map();
    if (k == (int)flds.size()) {
        for (int r = 0; r < 3; ++r) {
            MTrace m;
            int n = 1;
            for (auto& q : flds) m.hdr[q.second.second.first] = vt_real(q.second.second.second) ? Value((double)(n++ + r * 100)) : Value((int64_t)(n++ + r * 100));
            m.smp = { 1, 2 };
            f.tr.push_back(m);
        }
    } else {
        auto& q = flds[k];
        for (auto& v : fld_alphabet(q.second.second.second)) {
            if (add) {
                // a name that occurs in both headers has to be representable in both
                bool both = false;
                for (auto& o : std_map()[1 - q.first].second) both |= o.second.first == q.second.second.first;
                if (both && (fabs(as_dbl(v)) > 32767 || as_dbl(v) < 0 || as_dbl(v) != floor(as_dbl(v)))) continue;
            }
            MTrace m;
            m.hdr[q.second.second.first] = v;
            // with two headers the value comes back in the type of the additional header
            m.smp = { 1, 2 };
            f.tr.push_back(m);
        }
    }
    string p = c.path("f.sgy");
    {
        std::unique_ptr<sedaman::OSEGY> w;
        // default map arguments
        if (rev == 0) w = std::make_unique<sedaman::OSEGYRev0>(p, f.text[0], f.bin);
        else if (rev == 1) w = std::make_unique<sedaman::OSEGYRev1>(p, f.text, f.bin);
        else w = std::make_unique<sedaman::OSEGYRev2>(p, f.text, f.bin);
        for (auto& t : f.tr) { Trace x = mk(t); w->write_trace(x); c.step(); }
    }
    string d = diff(f.bytes(), slurp(p));
    if (!d.empty()) c.fail("written file: " + d);
    sedaman::ISEGY r(p);
    for (size_t i = 0; i < f.tr.size(); ++i) {
        Trace t = r.read_trace();
        c.step();
        MTrace want = f.expected(i);
        d = diff_trace(want, t);
        if (!d.empty()) c.fail(fmt("default map: trace %zu: ", i) + d);
        for (auto& h : f.tr[i].hdr)
            if (as_dbl(h.second) != as_dbl(*t.header().get(h.first))) c.fail("default map: " + h.first + " changed");
        Hash h;
        h << rev << e << add << k << (uint64_t)i;
        c.state(h.h);
    }
}

// a map with more or fewer headers than the file has: the ones present are read, the rest skipped
static void map_size(Ctx& c)
{
    int add = c.pick(4), n = c.pick(5);
    int32_t e = c.of({ LE, BE });
    bool fixed = c.flag();
    c.shard();
    MFile f = file_for({ 2, 0, add }, e);
    f.bin.fixed_tr_length = fixed;
    for (int i = 0; i <= add; ++i) f.map[i].second[4] = { fmt("H%d", i), VT::int32_t };
    f.map[0].second[114] = { "SAMP_NUM", VT::int16_t };
    for (int k = 0; k < 3; ++k) {
        MTrace m;
        for (int i = 0; i <= add; ++i) m.hdr[fmt("H%d", i)] = (int64_t)(1000 * k + i);
        int l = fixed ? 2 : 2 + (n == 0 ? 0 : k); // without a map every trace has the file's length
        m.hdr["SAMP_NUM"] = (int64_t)l;
        for (int i = 0; i < l; ++i) m.smp.push_back(k * 10 + i);
        f.tr.push_back(m);
    }
    string p = c.path("f.sgy");
    spew(p, f.bytes());
    HMap m(f.map.begin(), f.map.begin() + std::min(n, add + 1));
    for (int i = add + 1; i < n; ++i) m.push_back({ fmt("SEG0000%d", i), { { 4, { fmt("H%d", i), VT::int32_t } } } });
    sedaman::ISEGY r(p, m);
    for (int k = 0; k < 3; ++k) {
        Trace t = r.read_trace();
        c.step();
        MTrace want = dec_trace(f.bin, m, enc_trace(f.bin, f.map, f.tr[k]), f.tr[k].smp.size());
        string d = diff_trace(want, t);
        if (!d.empty()) c.fail(fmt("map of %d headers on a file with %d additional: trace %d: ", n, add, k) + d);
        Hash h;
        h << add << n << e << fixed << k;
        c.state(h.h);
    }
    c.require(!r.has_trace(), "a trace remains after the last one");
}

// a writer whose map has more or fewer headers than the file: every header is written, the unmapped ones as zeros
static void write_map_size(Ctx& c)
{
    int rev = c.pick(3);
    int add = rev == 2 ? c.pick(4) : 0;
    int n = add ? add + 1 : c.pick(5); // additional headers have to be in the map
    int32_t e = c.of({ LE, BE });
    int ntr = c.pick(4);
    c.shard();
    MFile f = file_for({ rev, 0, add }, e);
    f.map.clear();
    for (int i = 0; i < n; ++i) f.map.push_back({ fmt("SEG0000%d", i), { { 4, { fmt("H%d", i), VT::int32_t } } } });
    for (int k = 0; k < ntr; ++k) {
        MTrace m;
        for (int i = 0; i < 5; ++i) m.hdr[fmt("H%d", i)] = (int64_t)(1000 * (k + 1) + i);
        m.smp = { 1.0 + k, -2.0 - k };
        f.tr.push_back(m);
    }
    string p = c.path("f.sgy");
    {
        Writer w(rev, p, f.text, f.bin, {}, f.map);
        for (auto& t : f.tr) { w.write(t); c.step(); }
    }
    string d = diff(f.bytes(), slurp(p));
    if (!d.empty()) c.fail(fmt("revision %d, map of %d headers on a file with %d additional: ", rev, n, add) + d);
    check_read(c, p, f);
    Hash h;
    h << rev << add << n << e << ntr;
    c.state(h.h);
}

int main(int argc, char** argv)
{
    return explore_main(argc, argv, { { "single", single }, { "pairs", pairs }, { "across", across }, { "subsets", subsets },
        { "mixed_kind", mixed_kind }, { "builtin", builtin }, { "map_size", map_size }, { "write_map_size", write_map_size } });
}
