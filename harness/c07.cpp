// C07: sorted SEG-Y reading visits traces in key order without losing any.
#include "large_files.hpp"
#include <algorithm>
using namespace segy;

struct Sorted {
    MFile f;
    vector<MTrace> exp;
    vector<Value> key;     // of each trace, as read
    vector<int> order;     // trace numbers in the order they have to be delivered
    vector<Value> keys;    // distinct, in order
};
static void prepare(Sorted& s, char const* name)
{
    s.exp.clear(); s.key.clear(); s.order.clear(); s.keys.clear();
    for (size_t i = 0; i < s.f.tr.size(); ++i) {
        s.exp.push_back(s.f.expected(i));
        s.key.push_back(s.exp[i].hdr.at(name));
        s.order.push_back((int)i);
    }
    // insertion sort, stable, on the numeric value
    auto less = [](Value const& a, Value const& b) { return a.index() ? std::get<1>(a) < std::get<1>(b) : std::get<0>(a) < std::get<0>(b); };
    for (size_t i = 1; i < s.order.size(); ++i)
        for (size_t j = i; j > 0 && less(s.key[s.order[j]], s.key[s.order[j - 1]]); --j) std::swap(s.order[j], s.order[j - 1]);
    for (int i : s.order)
        if (s.keys.empty() || less(s.keys.back(), s.key[i])) s.keys.push_back(s.key[i]);
}
// values of a key type in increasing order, chosen so that ordering mistakes (unsigned, truncation, byte order) show
static vector<Value> key_values(VT t)
{
    switch (t) {
    case VT::int8_t: return { (int64_t)-128, (int64_t)-1, (int64_t)1 };
    case VT::uint8_t: return { (int64_t)1, (int64_t)127, (int64_t)200 };
    case VT::int16_t: return { (int64_t)-32768, (int64_t)-1, (int64_t)256 };
    case VT::uint16_t: return { (int64_t)1, (int64_t)256, (int64_t)40000 };
    case VT::int24_t: return { (int64_t)-8388608, (int64_t)-1, (int64_t)65536 };
    case VT::uint24_t: return { (int64_t)1, (int64_t)65536, (int64_t)0x900000 };
    case VT::int32_t: return { (int64_t)-2147483647 - 1, (int64_t)-1, (int64_t)65536 };
    case VT::uint32_t: return { (int64_t)1, (int64_t)65536, (int64_t)0x90000000ll };
    case VT::int64_t: return { (int64_t)INT64_MIN, (int64_t)-1, (int64_t)1ll << 40 };
    case VT::uint64_t: return { (int64_t)1, (int64_t)1ll << 31, (int64_t)1ll << 40 };
    case VT::ibm: return { -16.0, -0.0625, 256.5 };
    case VT::ieee_single: return { -2.5, -0.25, 1.5 };
    default: return { -1e300, 0.25, 0.5 };
    }
}
static string list(vector<Value> const& v)
{
    string s;
    for (auto& x : v) s += val_str(x) + " ";
    return s;
}

// a pick that is remembered so that the file is only rebuilt when its part of the choices changes
static bool changed(Ctx& c, string& last)
{
    string key;
    for (size_t i = 0; i < c.pos_; ++i) key += (char)c.choices_[i].v;
    if (key == last) return false;
    last = key;
    return true;
}
enum { HAS, HDR, TRC, KEYS, GETH, GETT, OPS };
static void run_ops(Ctx& c, sedaman::ISEGYSorted1D& r, Sorted const& s, vector<Value> const& probe, int depth, bool full, uint64_t base)
{
    int n = (int)s.order.size(), pos = 0;
    string log;
    for (int k = 0; k < depth; ++k) {
        int op = c.pick(OPS);
        c.step();
        log += "HhTkgG"[op];
        string d;
        if (op == HAS) {
            bool h = r.has_trace();
            if (h != (pos < n)) d = fmt("has_trace is %d with %d of %d traces read", h, pos, n);
        } else if (op == KEYS) {
            auto g = r.get_keys();
            bool ok = g.size() == s.keys.size();
            for (size_t i = 0; ok && i < g.size(); ++i) ok = val_same(g[i], s.keys[i]);
            if (!ok) d = "keys are " + list(g) + "expected " + list(s.keys);
        } else if (op == GETH || op == GETT) {
            Value v = probe[c.pick((int)probe.size())];
            uint64_t lim = full ? c.of<uint64_t>({ 0, 1, 2, 1000000 }) : c.of<uint64_t>({ 1, 1000000 });
            log += val_str(v) + fmt("/%llu ", (unsigned long long)lim);
            vector<int> want;
            for (int i = 0; i < n && want.size() < lim; ++i) if (val_same(s.key[i], v)) want.push_back(i);
            if (op == GETH) {
                auto g = lim == 1000000 ? r.get_headers(v) : r.get_headers(v, lim);
                if (g.size() != want.size()) d = fmt("%zu headers expected %zu", g.size(), want.size());
                for (size_t i = 0; d.empty() && i < g.size(); ++i) d = diff_hdr(s.exp[want[i]].hdr, g[i]);
            } else {
                auto g = lim == 1000000 ? r.get_traces(v) : r.get_traces(v, lim);
                if (g.size() != want.size()) d = fmt("%zu traces expected %zu", g.size(), want.size());
                for (size_t i = 0; d.empty() && i < g.size(); ++i) d = diff_trace(s.exp[want[i]], g[i]);
            }
        } else if (pos < n) {
            MTrace const& e = s.exp[s.order[pos]];
            d = op == HDR ? diff_hdr(e.hdr, r.read_header()) : diff_trace(e, r.read_trace());
            if (!d.empty()) d = fmt("read %d: ", pos) + d;
            ++pos;
        } else {
            bool ex = false;
            try {
                if (op == HDR) r.read_header(); else r.read_trace();
            } catch (std::exception&) { ex = true; }
            if (!ex) d = "a trace was delivered after the last one";
        }
        if (!d.empty()) c.fail(log + ": " + d);
        Hash h;
        h << base << pos << op;
        c.state(h.h);
    }
    // whatever happened before, the rest comes in order
    for (; pos < n; ++pos) {
        if (!r.has_trace()) c.fail(log + fmt(": no trace with %d of %d read", pos, n));
        string d = diff_trace(s.exp[s.order[pos]], r.read_trace());
        c.step(2);
        if (!d.empty()) c.fail(log + fmt(": then read %d: ", pos) + d);
    }
    if (r.has_trace()) c.fail(log + ": a trace remains after the last one");
    c.note(log);
}

// all operation histories over all key assignments of up to 3 traces
static void histories(Ctx& c)
{
    static Sorted s;
    static string last;
    static uint64_t base;
    bool var = c.flag();
    int n = c.pick(4);
    vector<int> rank;
    for (int i = 0; i < n; ++i) rank.push_back(c.pick(i == 0 ? 2 : 3)); // all weak orders of up to 3 traces
    c.shard();
    string p = c.path("f.sgy");
    vector<Value> kv = { (int64_t)-5, (int64_t)3, (int64_t)70000 };
    if (changed(c, last)) {
        Layout l {};
        l.rev = 1; l.endian = BE; l.code = 3; l.fixed = !var; l.gap = -1;
        vector<int> lens;
        for (int i = 0; i < n; ++i) lens.push_back(i * 2 % 3);
        s.f = build(l, 2, lens);
        for (int i = 0; i < n; ++i) s.f.tr[i].hdr["KEY"] = kv[rank[i]];
        string b = s.f.bytes();
        spew(p, b);
        prepare(s, "KEY");
        Hash h;
        h << b;
        base = h.h;
    }
    sedaman::ISEGYSorted1D r(p, "KEY", s.f.map);
    c.step();
    vector<Value> probe = n ? vector<Value> { s.key[0], (int64_t)4 } : vector<Value> { (int64_t)4 };
    run_ops(c, r, s, probe, c.thorough() ? 5 : 4, false, base);
}
// all key types, all key assignments of up to 4 traces, all limits
static void types(Ctx& c)
{
    VT t = c.of(all_vt());
    int32_t e = c.of({ LE, BE });
    int n = 1 + c.pick(4);
    c.shard();
    auto kv = key_values(t);
    vector<int> rank;
    for (int i = 0; i < n; ++i) rank.push_back(c.pick(3));
    int add = c.pick(2);
    Sorted s;
    Layout l {};
    l.rev = 2; l.endian = e; l.code = 8; l.fixed = true; l.gap = -1; l.add = add;
    s.f = build(l, 1, vector<int>(n, 1));
    s.f.map[0].second.clear();
    s.f.map[add].second[20] = { "KEY", t };
    s.f.map[0].second[100] = { "N", VT::int32_t };
    for (int i = 0; i < n; ++i) { s.f.tr[i].hdr["KEY"] = kv[rank[i]]; s.f.tr[i].hdr["N"] = (int64_t)(i + 1); }
    string p = c.path("f.sgy"), b = s.f.bytes();
    spew(p, b);
    prepare(s, "KEY");
    sedaman::ISEGYSorted1D r(p, "KEY", s.f.map);
    auto g = r.get_keys();
    c.step(2);
    bool ok = g.size() == s.keys.size();
    for (size_t i = 0; ok && i < g.size(); ++i) ok = val_same(g[i], s.keys[i]);
    if (!ok) c.fail("keys are " + list(g) + "expected " + list(s.keys));
    for (uint64_t lim : { 0, 1, 2, 3, 5 })
        for (auto& v : kv) {
            vector<int> want;
            for (int i = 0; i < n && want.size() < lim; ++i) if (val_same(s.key[i], v)) want.push_back(i);
            auto th = r.get_headers(v, lim);
            auto tt = r.get_traces(v, lim);
            c.step(2);
            if (th.size() != want.size() || tt.size() != want.size()) c.fail(fmt("%zu headers and %zu traces expected %zu", th.size(), tt.size(), want.size()));
            for (size_t i = 0; i < want.size(); ++i) {
                string d = diff_hdr(s.exp[want[i]].hdr, th[i]);
                if (d.empty()) d = diff_trace(s.exp[want[i]], tt[i]);
                if (!d.empty()) c.fail("fetched: " + d);
            }
        }
    for (int i = 0; i < n; ++i) {
        c.require(r.has_trace(), "no trace before the last one");
        string d = diff_trace(s.exp[s.order[i]], r.read_trace());
        c.step();
        if (!d.empty()) c.fail(fmt("read %d: ", i) + d);
    }
    c.require(!r.has_trace(), "trace remains");
    Hash h;
    h << b;
    c.state(h.h);
}
// every layout class; key present or not; binary header overridden or not
static void layouts(Ctx& c)
{
    Layout l = pick_layout(c, { 2 }, { BE }, true);
    int n = c.pick(3) * 2;
    c.shard();
    bool missing = c.flag(), over = c.flag();
    if (l.trail_term && n == 0) return;
    vector<int> lens;
    for (int i = 0; i < n; ++i) lens.push_back((i * 3 + 1) % 4);
    Sorted s;
    s.f = build(l, 2, lens);
    char const* key = l.wide ? "FFID" : "KEY";
    string p = c.path("f.sgy"), b = s.f.bytes();
    spew(p, b);
    prepare(s, key);
    std::unique_ptr<sedaman::ISEGYSorted1D> r;
    bool ex = false;
    try {
        c.step();
        char const* name = missing ? "NO_SUCH" : key;
        if (over) {
            Bin bh = dec_bin(enc_bin(s.f.bin));
            r = std::make_unique<sedaman::ISEGYSorted1D>(p, name, bh, s.f.map);
        } else
            r = std::make_unique<sedaman::ISEGYSorted1D>(p, name, s.f.map);
    } catch (std::exception&) { ex = true; }
    if (ex != (missing && n > 0)) c.fail(ex ? "opening was refused" : "a missing sort header was accepted");
    if (ex) return;
    string d = diff_text(s.f.text, r->text_headers(), "text headers");
    if (d.empty()) d = diff_text(s.f.trailer, r->trailer_stanzas(), "trailer stanzas");
    if (d.empty()) d = diff_bin(dec_bin(enc_bin(s.f.bin)), r->binary_header());
    if (!d.empty()) c.fail(d);
    for (int i = 0; i < n; ++i) {
        c.require(r->has_trace(), "no trace before the last one");
        MTrace const& e = s.exp[s.order[i]];
        d = i % 2 ? diff_hdr(e.hdr, r->read_header()) : diff_trace(e, r->read_trace());
        c.step();
        if (!d.empty()) c.fail(fmt("read %d: ", i) + d);
        if (!r->get_keys().empty() && (int)r->get_traces(s.key[0]).size() != (int)std::count_if(s.key.begin(), s.key.end(), [&](Value& v) { return val_same(v, s.key[0]); }))
            c.fail("wrong number of traces for a key");
    }
    c.require(!r->has_trace(), "trace remains");
    Hash h;
    h << b << missing << over;
    c.state(h.h);
}
// many traces: permutation patterns with many and few distinct keys, header and trace reads mixed
static void many(Ctx& c)
{
    int n = c.of({ 9, 31, 64, 130 }), mul = c.of({ 1, 5, 7, 11, 63 }), mod = c.of({ 2, 3, 10, 1000 }), rd = c.pick(4);
    bool fixed = c.flag();
    c.shard();
    Sorted s;
    Layout l {};
    l.rev = 1; l.endian = LE; l.code = 3; l.fixed = fixed; l.gap = -1;
    vector<int> lens;
    for (int i = 0; i < n; ++i) lens.push_back(i * 7 % 5);
    s.f = build(l, 2, lens);
    for (int i = 0; i < n; ++i) s.f.tr[i].hdr["KEY"] = (int64_t)(i * mul % n % mod) - mod / 2;
    string p = c.path("f.sgy"), b = s.f.bytes();
    spew(p, b);
    prepare(s, "KEY");
    sedaman::ISEGYSorted1D r(p, "KEY", s.f.map);
    c.require(r.get_keys().size() == s.keys.size(), "wrong number of keys");
    for (int i = 0; i < n; ++i) {
        c.require(r.has_trace(), "no trace before the last one");
        if (rd == 3) {
            r.get_traces(s.keys[i % s.keys.size()], 2);
            r.get_headers(s.keys[i * 5 % s.keys.size()]);
        }
        MTrace const& e = s.exp[s.order[i]];
        string d = rd == 1 || (rd >= 2 && i % 3 == 1) ? diff_hdr(e.hdr, r.read_header()) : diff_trace(e, r.read_trace());
        c.step();
        if (!d.empty()) c.fail(fmt("read %d: ", i) + d);
    }
    c.require(!r.has_trace(), "trace remains");
    Hash h;
    h << b << rd;
    c.state(h.h);
}
// files of more than 2 and 4 GB, keys in decreasing order
static void large_files(Ctx& c)
{
    string p = c.path("large.sgy");
    Large x = large(c, p, true);
    struct Gone { string p; ~Gone() { std::remove(p.c_str()); } } gone { p };
    if (!x.ok) return;
    sedaman::ISEGYSorted1D r(p, "KEY", x.f.map);
    size_t n = x.hdr.size(), got = 0;
    auto read = [&](bool hdr) {
        size_t i = n - 1 - got++;
        c.step();
        string d = hdr || !x.small(i) ? diff_hdr(x.hdr[i], r.read_header()) : diff_trace(x.expected(i), r.read_trace());
        if (!d.empty()) c.fail(x.desc + fmt(": read %zu: ", got - 1) + d);
    };
    auto look = [&](bool hdr, size_t i) {
        c.step();
        string d;
        if (hdr || !x.small(i)) {
            auto g = r.get_headers(x.hdr[i]["KEY"]);
            d = g.size() == 1 ? diff_hdr(x.hdr[i], g[0]) : fmt("%zu headers", g.size());
        } else {
            auto g = r.get_traces(x.hdr[i]["KEY"], 1);
            d = g.size() == 1 ? diff_trace(x.expected(i), g[0]) : fmt("%zu traces", g.size());
        }
        if (!d.empty()) c.fail(x.desc + fmt(": trace %zu by its key: ", i) + d);
    };
    if (n <= 10) {
        for (int k = 0; k < (c.thorough() ? 5 : 4); ++k) {
            int op = c.pick(5);
            if (op == 0) c.require(r.has_trace() == (got < n), x.desc + ": has_trace");
            else if (op < 3) { if (got >= n) break; read(op == 1); }
            else look(op == 3, x.cross - 1 + k % 3 < n ? x.cross - 1 + k % 3 : 0);
            Hash h;
            h << x.desc << got << op;
            c.state(h.h);
        }
    } else {
        bool hdr = c.flag();
        for (size_t i = x.cross - 1; i <= x.cross + 1; ++i) { look(hdr, i); read(hdr); }
        look(hdr, 0);
        Hash h;
        h << x.desc << hdr;
        c.state(h.h);
    }
    while (got < n) { c.require(r.has_trace(), x.desc + ": no trace before the last one"); read(true); }
    c.require(!r.has_trace(), x.desc + ": a trace remains after the last one");
}
// the value of the key, not its representation
static bool same_key(Value const& a, Value const& b) { return a.index() == b.index() && (a.index() ? std::get<1>(a) == std::get<1>(b) : std::get<0>(a) == std::get<0>(b)); }
static Sorted one_key(VT t, int32_t e, vector<Value> const& keys)
{
    Sorted s;
    Layout l {};
    int n = (int)keys.size();
    l.rev = 2; l.endian = e; l.code = 8; l.fixed = true; l.gap = -1; l.add = 0;
    s.f = build(l, 1, vector<int>(n, 1));
    s.f.map[0].second.clear();
    s.f.map[0].second[20] = { "KEY", t };
    s.f.map[0].second[100] = { "N", VT::int32_t };
    for (int i = 0; i < n; ++i) { s.f.tr[i].hdr["KEY"] = keys[i]; s.f.tr[i].hdr["N"] = (int64_t)(i + 1); }
    return s;
}
// values next to each other over the whole range of each type
static vector<vector<Value>> close_values(VT t)
{
    vector<vector<Value>> r;
    auto add = [&](auto... x) { r.push_back({ Value(x)... }); };
    if (t == VT::ibm || t == VT::ieee_single || t == VT::ieee_double) {
        double step = t == VT::ibm ? 0x1p-20 : t == VT::ieee_single ? 0x1p-23 : 0x1p-52;
        int lo = t == VT::ibm ? -250 : t == VT::ieee_single ? -126 : -1022, hi = t == VT::ibm ? 248 : t == VT::ieee_single ? 127 : 1023;
        for (int sign = 0; sign < 2; ++sign)
            for (int k = lo; k <= hi; k += k > -5 && k < 70 ? 1 : 37) {
                if (t == VT::ibm && (k & 3)) continue;
                double a = ldexp(1, k), b = ldexp(1 + step, k);
                sign ? add(-b, -a) : add(a, b);
            }
        double tiny = t == VT::ibm ? 0x1p-260 : t == VT::ieee_single ? 0x1p-149 : 0x1p-1074;
        add(-tiny, 0., tiny);
        if (t != VT::ibm) { add(-INFINITY, -3.0e38 + 0 * step, 0.); add(0., 1., (double)INFINITY); add(-0., 0.); add(0., -0.); add(-1., -0., 0., 1.); }
        return r;
    }
    int bits = t == VT::int8_t || t == VT::uint8_t ? 8 : t == VT::int16_t || t == VT::uint16_t ? 16 : t == VT::int24_t || t == VT::uint24_t ? 24 : t == VT::int32_t || t == VT::uint32_t ? 32 : 64;
    bool sg = t == VT::int8_t || t == VT::int16_t || t == VT::int24_t || t == VT::int32_t || t == VT::int64_t;
    int64_t hi = bits == 64 ? INT64_MAX : (1ll << (bits - sg)) - 1, lo = sg ? -hi - 1 : 0;
    for (int k = 0; k < 63 && (1ll << k) <= hi; ++k) {
        int64_t v = 1ll << k;
        add(v - 1, v);
        if (v < hi) { add(v, v + 1); add(v - 1, v, v + 1); }
        if (sg) { add(-v, -v + 1); add(-v - 1, -v); add(-v, v - 1); add(-v - 1, -v, -v + 1, v); }
    }
    add(hi - 1, hi); add(lo, lo + 1); add(lo, hi); add(lo, lo + 1, hi - 1, hi);
    return r;
}
static void close_keys(Ctx& c)
{
    VT t = c.of(all_vt());
    int32_t e = c.of({ LE, BE });
    c.shard();
    auto kv = c.of(close_values(t));
    int n = (int)kv.size(), order = c.pick(3);
    vector<Value> k;
    for (int i = 0; i < 2 * n; ++i) k.push_back(kv[order == 0 ? i % n : order == 1 ? (2 * n - 1 - i) % n : (i * (n - 1) + i / n) % n]);
    Sorted s = one_key(t, e, k);
    string p = c.path("f.sgy"), b = s.f.bytes();
    spew(p, b);
    prepare(s, "KEY");
    sedaman::ISEGYSorted1D r(p, "KEY", s.f.map);
    auto g = r.get_keys();
    c.step(2);
    bool ok = g.size() == s.keys.size();
    for (size_t i = 0; ok && i < g.size(); ++i) ok = same_key(g[i], s.keys[i]);
    if (!ok) c.fail("keys are " + list(g) + "expected " + list(s.keys));
    for (auto& v : kv) {
        vector<int> want;
        for (size_t i = 0; i < k.size(); ++i) if (same_key(s.key[i], v)) want.push_back(i);
        auto tt = r.get_traces(v);
        auto th = r.get_headers(v);
        c.step(2);
        if (tt.size() != want.size() || th.size() != want.size()) c.fail(fmt("%zu traces and %zu headers expected %zu for ", tt.size(), th.size(), want.size()) + val_str(v));
        for (size_t i = 0; i < want.size(); ++i) {
            string d = diff_trace(s.exp[want[i]], tt[i]);
            if (d.empty()) d = diff_hdr(s.exp[want[i]].hdr, th[i]);
            if (!d.empty()) c.fail("fetched for " + val_str(v) + ": " + d);
        }
    }
    for (size_t i = 0; i < k.size(); ++i) {
        c.require(r.has_trace(), "no trace before the last one");
        string d = diff_trace(s.exp[s.order[i]], r.read_trace());
        c.step();
        if (!d.empty()) c.fail(list(kv) + fmt("read %zu: ", i) + d);
    }
    c.require(!r.has_trace(), "trace remains");
    Hash h;
    h << b;
    c.state(h.h);
}
// keys that are no numbers have no place in the order: every trace comes, and the others stay in theirs
static void not_numbers(Ctx& c)
{
    VT t = c.of({ VT::ieee_single, VT::ieee_double });
    int32_t e = c.of({ LE, BE });
    int n = 1 + c.pick(c.thorough() ? 6 : 5);
    c.shard();
    static double const v[] { -2.5, 1.5, 1.5 + 0x1p-20, 0 };
    vector<Value> k;
    vector<int> kind;
    double nan = std::nan("");
    for (int i = 0; i < n; ++i) {
        kind.push_back(c.pick(n < 5 ? 5 : 4));
        k.push_back(kind[i] < 3 ? v[kind[i]] : kind[i] == 3 ? nan : -nan);
    }
    Sorted s = one_key(t, e, k);
    string p = c.path("f.sgy"), b = s.f.bytes();
    spew(p, b);
    vector<MTrace> exp;
    for (int i = 0; i < n; ++i) exp.push_back(s.f.expected(i));
    string log;
    for (auto& x : k) log += val_str(x) + " ";
    sedaman::ISEGYSorted1D r(p, "KEY", s.f.map);
    c.step();
    vector<double> want, got;
    for (int i = 0; i < n; ++i) if (kind[i] < 3) want.push_back(v[kind[i]]);
    std::sort(want.begin(), want.end());
    want.erase(std::unique(want.begin(), want.end()), want.end());
    for (auto& x : r.get_keys()) if (!std::isnan(std::get<double>(x))) got.push_back(std::get<double>(x));
    if (got != want) c.fail(log + fmt(": %zu keys that are numbers instead of %zu, or in another order", got.size(), want.size()));
    for (int q = 0; q < 3; ++q) {
        auto g = r.get_traces(v[q]);
        auto gh = r.get_headers(v[q]);
        c.step(2);
        vector<int> w;
        for (int i = 0; i < n; ++i) if (kind[i] == q) w.push_back(i);
        if (g.size() != w.size() || gh.size() != w.size()) c.fail(log + fmt(": %zu traces and %zu headers for %g instead of %zu", g.size(), gh.size(), v[q], w.size()));
        for (size_t i = 0; i < w.size(); ++i) {
            string d = diff_trace(exp[w[i]], g[i]);
            if (!d.empty()) c.fail(log + ": fetched: " + d);
        }
    }
    vector<int> seen(n);
    int last = -1;
    for (int i = 0; i < n; ++i) {
        c.require(r.has_trace(), log + ": no trace before the last one");
        Trace tr = r.read_trace();
        c.step();
        int64_t num = std::get<int64_t>(*tr.header().get("N"));
        if (num < 1 || num > n || seen[num - 1]++) c.fail(log + fmt(": trace %lld comes twice", (long long)num));
        int j = num - 1;
        if (kind[j] < 3) {
            string d = diff_trace(exp[j], tr);
            if (!d.empty()) c.fail(log + ": " + d);
            if (last >= 0 && (v[kind[last]] > v[kind[j]] || (kind[last] == kind[j] && last > j))) c.fail(log + fmt(": trace %d is delivered after trace %d", j + 1, last + 1));
            last = j;
        }
    }
    c.require(!r.has_trace(), "trace remains");
    Hash h;
    h << b;
    c.state(h.h);
}
int main(int argc, char** argv)
{
    return explore_main(argc, argv, { { "histories", histories }, { "types", types }, { "close_keys", close_keys }, { "not_numbers", not_numbers }, { "layouts", layouts }, { "many", many }, { "large_files", large_files } });
}
