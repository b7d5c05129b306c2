// C19: traces and headers behave as independent values.
#include "segy_model.hpp"
#include <set>
using namespace segy;
using Header = Trace::Header;

struct MT { Hdr h; vector<double> s; bool moved = false; };
static vector<string> const& names()
{
    static vector<string> const n = { "A", "B", "", "a name that is longer than the small string buffer of std::string", string("Z\0Z", 3), "SAMP_NUM" };
    return n;
}
static string diff_map(Hdr const& want, Header const& got)
{
    auto ks = got.keys();
    std::set<string> seen(ks.begin(), ks.end());
    if (seen.size() != ks.size()) return "a key is listed twice";
    if (ks.size() != want.size()) return fmt("%zu keys expected %zu", ks.size(), want.size());
    for (auto& n : names()) {
        auto v = got.get(n);
        auto it = want.find(n);
        if (it == want.end() ? (bool)v : !v) return "key '" + n + "' is " + (v ? "present" : "absent");
        if (v && !val_same(*v, it->second)) return "key '" + n + "' is " + val_str(*v) + " expected " + val_str(it->second);
        if (it != want.end() && !seen.count(n)) return "key '" + n + "' is not listed";
    }
    return "";
}
static string diff_tr(MT const& m, Trace const& t)
{
    string d = diff_map(m.h, t.header_const());
    return d.empty() ? diff_smp(m.s, t.samples()) : d;
}
enum { SET, SET2, COPY_ASSIGN, MOVE_ASSIGN, COPY_NEW, MOVE_NEW, HDR_COPY_IN, HDR_MOVE_IN, HDR_OUT, OPS };
static char const* const op_names[] = { "set", "set2", "copy-assign", "move-assign", "copy-construct", "move-construct", "header copy in", "header move in", "header out" };

// all histories of operations on three traces and a header
static void histories(Ctx& c)
{
    int const N = 3 - c.pick(2), depth = (N == 3 ? 3 : 4) + (c.thorough() ? 1 : 0);
    MT m[3];
    std::unique_ptr<Trace> t[3];
    m[0].h = { { "A", (int64_t)1 }, { "", 2.5 } };
    m[0].s = { 1, 2, 3 };
    m[1].h = { { "B", (int64_t)-7 } };
    m[1].s = {};
    for (int i = 0; i < N; ++i) t[i] = std::make_unique<Trace>(m[i].h, m[i].s);
    Hdr mh { { names()[3], (int64_t)INT64_MIN } };
    bool mh_moved = false;
    auto h = std::make_unique<Header>(mh);
    string log;
    for (int k = 0; k < depth; ++k) {
        int op = c.pick(OPS);
        int i = c.pick(N);
        int j = op >= COPY_ASSIGN && op <= MOVE_NEW ? c.pick(N) : i;
        if (k == 1) c.shard();
        log += fmt("%s %d<-%d; ", op_names[op], i, j);
        c.step();
        switch (op) {
        case SET:
            if (m[i].moved) return;
            t[i]->header().set("A", (int64_t)(100 + k));
            m[i].h["A"] = (int64_t)(100 + k);
            break;
        case SET2:
            if (m[i].moved) return;
            t[i]->header().set(names()[3], 0.5 + k);
            m[i].h[names()[3]] = 0.5 + k;
            break;
        case COPY_ASSIGN:
            if (m[j].moved) return;
            *t[i] = (Trace const&)*t[j];
            m[i] = m[j];
            break;
        case MOVE_ASSIGN: {
            if (m[j].moved) return;
            *t[i] = std::move(*t[j]);
            MT x = m[j];
            if (i != j) m[j].moved = true;
            m[i] = x;
            break;
        }
        case COPY_NEW: {
            if (m[j].moved) return;
            auto n = std::make_unique<Trace>((Trace const&)*t[j]);
            t[i] = std::move(n);
            m[i] = m[j];
            break;
        }
        case MOVE_NEW: {
            if (m[j].moved) return;
            auto n = std::make_unique<Trace>(std::move(*t[j]));
            MT x = m[j];
            m[j].moved = true;
            t[i] = std::move(n);
            m[i] = x;
            break;
        }
        case HDR_COPY_IN:
            if (mh_moved || m[i].moved) return;
            t[i]->header() = (Header const&)*h;
            m[i].h = mh;
            break;
        case HDR_MOVE_IN:
            if (mh_moved || m[i].moved) return;
            t[i]->header() = std::move(*h);
            m[i].h = mh;
            mh_moved = true;
            break;
        case HDR_OUT:
            if (m[i].moved) return;
            *h = t[i]->header_const();
            mh = m[i].h;
            mh_moved = false;
            break;
        }
        for (int q = 0; q < N; ++q)
            if (!m[q].moved) {
                string d = diff_tr(m[q], *t[q]);
                if (!d.empty()) c.fail(log + fmt("trace %d: ", q) + d);
            }
        if (!mh_moved) {
            string d = diff_map(mh, *h);
            if (!d.empty()) c.fail(log + "header: " + d);
        }
        Hash hs;
        for (int q = 0; q < N; ++q) {
            hs << m[q].moved << m[q].s;
            for (auto& n : names()) if (m[q].h.count(n)) hs << n << val_str(m[q].h[n]);
        }
        for (auto& n : names()) if (mh.count(n)) hs << n << val_str(mh[n]);
        hs << mh_moved;
        c.state(hs.h);
    }
    c.note(log);
}
// the header alone as a map: all sequences of set over names and values of both kinds
static void map_ops(Ctx& c)
{
    int depth = c.thorough() ? 5 : 4;
    static vector<Value> const vals = { (int64_t)0, INT64_MAX, -0.5, (double)1e308 };
    Hdr m;
    int init = c.pick(3);
    if (init == 1) m = { { "A", (int64_t)5 } };
    if (init == 2) m = { { "A", 5.0 }, { "", (int64_t)6 }, { names()[3], (int64_t)7 } };
    Header h(m);
    string log;
    for (int k = 0; k < depth; ++k) {
        int n = c.pick(5), v = c.pick((int)vals.size());
        if (k == 0) c.shard();
        h.set(names()[n], vals[v]);
        m[names()[n]] = vals[v];
        log += names()[n] + "=" + val_str(vals[v]) + " ";
        c.step(2);
        string d = diff_map(m, h);
        if (!d.empty()) c.fail(log + ": " + d);
    }
    Hash hs;
    for (auto& n : names()) if (m.count(n)) hs << n << val_str(m[n]);
    c.state(hs.h);
}
// headers: copies, moves, self assignment with every aliasing pattern, then edits of either side
static void header_values(Ctx& c)
{
    int const N = 3 - c.pick(2), depth = (N == 3 ? 3 : 4) + (c.thorough() ? 1 : 0);
    Hdr m[3];
    bool moved[3] = {};
    std::unique_ptr<Header> h[3];
    m[0] = { { "A", (int64_t)1 } };
    m[1] = { { "B", 2.0 }, { "", (int64_t)0 } };
    for (int i = 0; i < N; ++i) h[i] = std::make_unique<Header>(m[i]);
    string log;
    for (int k = 0; k < depth; ++k) {
        int op = c.pick(5), i = c.pick(N), j = op ? c.pick(N) : i;
        if (k == 1) c.shard();
        log += fmt("%d %d<-%d; ", op, i, j);
        if (moved[j] || (op == 0 && moved[i])) return;
        c.step();
        if (op == 0) { h[i]->set("A", (int64_t)(10 + k)); m[i]["A"] = (int64_t)(10 + k); }
        else if (op == 1) { *h[i] = (Header const&)*h[j]; m[i] = m[j]; moved[i] = false; }
        else if (op == 2) { *h[i] = std::move(*h[j]); Hdr x = m[j]; if (i != j) moved[j] = true; m[i] = x; moved[i] = false; }
        else if (op == 3) { auto n = std::make_unique<Header>((Header const&)*h[j]); h[i] = std::move(n); m[i] = m[j]; moved[i] = false; }
        else { auto n = std::make_unique<Header>(std::move(*h[j])); Hdr x = m[j]; moved[j] = true; h[i] = std::move(n); m[i] = x; moved[i] = false; }
        for (int q = 0; q < N; ++q) if (!moved[q]) {
            string d = diff_map(m[q], *h[q]);
            if (!d.empty()) c.fail(log + fmt("header %d: ", q) + d);
        }
        Hash hs;
        for (int q = 0; q < N; ++q) { hs << moved[q]; for (auto& n : names()) if (m[q].count(n)) hs << n << val_str(m[q][n]); }
        c.state(hs.h);
    }
}
// a container of traces: growth, erasure, insertion, sorting keep every element's contents
static void containers(Ctx& c)
{
    int n = c.of({ 1, 2, 3, 5, 17 });
    int op = c.pick(5), at = c.pick(n);
    c.shard();
    vector<Trace> v;
    vector<int> id;
    auto mkt = [](int i) { return Trace({ { "A", (int64_t)i }, { "B", i * 0.5 } }, vector<double>(i % 4, i)); };
    for (int i = 0; i < n; ++i) { v.push_back(mkt(i)); id.push_back(i); }
    if (op == 0) { v.erase(v.begin() + at); id.erase(id.begin() + at); }
    else if (op == 1) { v.insert(v.begin() + at, mkt(99)); id.insert(id.begin() + at, 99); }
    else if (op == 2) { std::swap(v[at], v[n - 1 - at]); std::swap(id[at], id[n - 1 - at]); }
    else if (op == 3) { Trace x = v[at]; v.push_back(x); id.push_back(id[at]); x.header().set("A", (int64_t)-1); }
    else { vector<Trace> w = v; w[at].header().set("A", (int64_t)-1); w.clear(); }
    c.step(n + 1);
    for (size_t i = 0; i < v.size(); ++i) {
        Hdr h { { "A", (int64_t)id[i] }, { "B", id[i] * 0.5 } };
        string d = diff_map(h, v[i].header_const());
        if (d.empty()) d = diff_smp(vector<double>(id[i] % 4, id[i]), v[i].samples());
        if (!d.empty()) c.fail(fmt("operation %d on %d traces, element %zu: ", op, n, i) + d);
    }
    Hash hs;
    hs << n << op << at;
    c.state(hs.h);
}
int main(int argc, char** argv)
{
    return explore_main(argc, argv, { { "histories", histories }, { "map_ops", map_ops }, { "header_values", header_values }, { "containers", containers } });
}
