// C23: errors of the device are reported and do no harm.
#include "device.hpp"
#include "segd_actors.hpp"
#include "segy_layouts.hpp"
#include <csignal>
#include <memory>
#include <sys/stat.h>
using std::string;
using std::vector;
using namespace mc;

// ------------------------------------------------------------------ writers
// a history of calls on a writer: step 0 opens, then one trace each, the last one destroys
struct Script {
    virtual ~Script() = default;
    virtual void open(string const& path) = 0;
    virtual void trace(int i) = 0;
    virtual void close() = 0;
    int traces = 0;
    string image;        // the complete file
    size_t from = 0, to = 0; // bytes that are rewritten later
    string before;       // and what they were
};
struct SegyScript : Script {
    int rev;
    segy::MFile f;
    segy::Bin given = {};
    vector<sedaman::Trace> tr;
    std::unique_ptr<segy::Writer> w;
    SegyScript(int rev, bool derive, int n_ext, int n_trail, vector<int> const& lens, int add) : rev(rev)
    {
        f.text = { segy::text_block('A', 0) };
        for (int i = 0; i < n_ext; ++i) f.text.push_back(segy::text_block('B', i));
        for (int i = 0; i < n_trail; ++i) f.trailer.push_back(segy::text_block('a', i));
        if (!derive) {
            given.format_code = 5;
            given.samp_per_tr = (int16_t)*std::max_element(lens.begin(), lens.end());
            given.samp_int = 1000;
            given.SEGY_rev_major_ver = (uint8_t)rev;
            if (rev == 2) given.max_num_add_tr_headers = add;
        }
        f.bin = segy::derived_bin(rev, given, f.text.size(), f.trailer.size());
        segy::Layout l {};
        l.add = add;
        f.map = segy::layout_map(l);
        f.map[0].second[116] = { "SAMP_INT", segy::VT::int16_t };
        before = segy::enc_bin(f.bin);
        if (derive) { f.bin.samp_per_tr = (int16_t)lens[0]; f.bin.samp_int = 1000; from = 3200; to = 3600; }
        for (size_t i = 0; i < lens.size(); ++i) {
            segy::MTrace t;
            int k = rev ? lens[i] : segy::declared_samples(f.bin);
            t.hdr["SAMP_NUM"] = (int64_t)k;
            t.hdr["SAMP_INT"] = (int64_t)1000;
            t.hdr["KEY"] = (int64_t)i + 1;
            for (int q = 0; q < k; ++q) t.smp.push_back((q * 7 + (int)i) % 1000 + 1);
            f.tr.push_back(t);
            tr.push_back(segy::mk(t));
        }
        traces = (int)lens.size();
        image = f.bytes();
    }
    void open(string const& p) override { w = std::make_unique<segy::Writer>(rev, p, f.text, given, f.trailer, f.map); }
    void trace(int i) override { w->w->write_trace(tr[i]); }
    void close() override { w.reset(); }
};
struct SegdScript : Script {
    std::unique_ptr<segd::Parts> p;
    std::unique_ptr<sedaman::OSEGDRev2_1> w;
    SegdScript(string const& in, segd::Shape const& s)
    {
        segd::Record m = segd::canonical(s);
        image = m.bytes();
        spew(in, image);
        p = std::make_unique<segd::Parts>(in);
        traces = (int)p->tr.size();
    }
    void open(string const& path) override { w = p->open(path); }
    void trace(int i) override { w->write_trace(p->tr[i]); }
    void close() override { w.reset(); }
};
static vector<vector<int>> const lens { { 2, 1, 2 }, { 500, 1, 300 }, { 3, 2500, 2 }, { 2100, 2, 2100 } };
static std::unique_ptr<Script> pick_script(Ctx& c, string& what)
{
    int kind = c.pick(4);
    if (kind < 3) {
        bool derive = c.flag();
        int n_ext = kind ? c.pick(3) : 0, n_trail = kind == 2 ? c.pick(3) : 0, add = kind == 2 && !derive ? c.pick(2) : 0;
        int l = c.pick((int)lens.size());
        c.shard();
        what = fmt("SEG-Y revision %d, %s, %d extended headers, %d stanzas, %d additional headers, lengths %d", kind, derive ? "header derived" : "header given", n_ext, n_trail, add, l);
        return std::make_unique<SegyScript>(kind, derive, n_ext, n_trail, lens[l], add);
    }
    segd::Shape s;
    s.format = c.of({ 8015, 8058, 8036 });
    s.chans = c.of({ 1, 3, 7 });
    s.samples = c.of({ 2, 128, 512 });
    s.extended = c.of({ 0, 1, 60 });
    c.shard();
    s.n_ext = 1; s.external = s.extended / 2; s.skew = s.extended % 2; s.add = 1;
    what = fmt("SEG-D format %d, %d channels, %d samples, %d extended blocks", s.format, s.chans, s.samples, s.extended);
    return std::make_unique<SegdScript>(c.path("in.sgd"), s);
}
struct Outcome { int failed = -1; string error; long refused = 0; };
// carries out the whole history under the plan; whatever fails, the remaining calls are made as well
static Outcome carry_out(Ctx& c, Script& s, string const& path, dev::Plan const& plan, string const& what)
{
    Outcome o;
    dev::reset(plan);
    for (int i = 0; i <= s.traces + 1; ++i) {
        long had = dev::refused;
        bool thrown = false;
        try {
            dev::Arm a;
            if (i == 0) s.open(path);
            else if (i <= s.traces) s.trace(i - 1);
            else s.close();
        } catch (std::exception& e) { thrown = true; if (o.failed < 0) { o.failed = i; o.error = e.what(); } }
        c.step();
        string call = i == 0 ? "opening" : i <= s.traces ? fmt("writing trace %d", i - 1) : "destruction";
        bool now = dev::refused > had;
        if (i == s.traces + 1) { if (thrown) c.fail(what + ": destruction throws"); break; }
        // failure to position need not be noticed when it does no harm
        if (now && !thrown && plan.at_seek < 0) c.fail(what + ": " + call + " does not report that the device refused the data");
        if (thrown && !dev::refused) c.fail(what + ": " + call + " fails though nothing was refused: " + o.error);
        if (!thrown && o.failed >= 0) c.fail(what + ": " + call + " succeeds after data were lost");
        // an object that could not be made has no further calls
        if (i == 0 && thrown) break;
    }
    o.refused = dev::refused;
    return o;
}
// what is on the device is the beginning of the file
static void check_prefix(Ctx& c, Script& s, string const& path, string const& what, bool complete)
{
    string g = slurp(path), w = s.image.substr(0, g.size());
    if (complete ? g != s.image : g.size() > s.image.size()) c.fail(what + ": " + diff(s.image, g));
    if (g == w) return;
    if (s.to) {
        string v = s.image;
        v.replace(s.from, s.to - s.from, s.before);
        if (g == v.substr(0, g.size())) return;
        // the later version of a part of the rewritten bytes
        for (size_t k = s.from; k < s.to && k < g.size(); ++k) if (g[k] != w[k] && g[k] != v[k]) c.fail(what + ": " + diff(w, g));
        string a = g, b = w;
        for (string* x : { &a, &b }) if (x->size() > s.from) x->erase(s.from, s.to - s.from);
        if (a == b) return;
    }
    c.fail(what + ": what was stored is not the beginning of the file: " + diff(w, g));
}
// the device is full after every possible number of bytes
static void full(Ctx& c)
{
    string what;
    auto s = pick_script(c, what);
    string p = c.path("f.out");
    size_t n = s->image.size();
    // blocks end here
    for (size_t l = 0; l <= n + 1; ++l) {
        // without the thorough tier: every byte of the first two kilobytes, of the last one, around multiples of the
        // stream's buffer and of the headers' sizes, and every 61st of the rest
        if (!c.thorough()) {
            bool in = l < 64 || l + 64 > n || l % 61 == 0;
            for (size_t m : { 3200, 3600, 4096, 6800, 8191, 8192 }) in |= (l + 2) % m <= 4;
            if (!in) continue;
        }
        dev::Plan q;
        q.limit = l; q.err = l % 2 ? ENOSPC : EFBIG;
        string w = what + fmt(", full at %zu of %zu", l, n);
        Outcome o = carry_out(c, *s, p, q, w);
        if (l >= n && o.refused) c.fail(w + ": more is written than the file has");
        check_prefix(c, *s, p, w, l >= n);
        Hash h;
        h << what << l << o.failed << o.refused;
        c.state(h.h);
    }
}
// every call to the device fails, once or from then on, at once or after taking a part
static void write_calls(Ctx& c)
{
    string what;
    auto s = pick_script(c, what);
    string p = c.path("f.out");
    carry_out(c, *s, p, dev::Plan(), what);
    if (dev::refused) c.fail("refused without a plan");
    check_prefix(c, *s, p, what, true);
    long n = dev::writes;
    for (long k = 0; k < n; ++k) for (int once = 0; once < 2; ++once) for (int part : { 0, 1, 100 }) for (int err : { EIO, ENOSPC, EPIPE }) {
        dev::Plan q;
        q.at_write = k; q.once = once; q.part = part; q.err = err;
        string w = what + fmt(", write call %ld of %ld fails%s after %d bytes", k, n, once ? " once" : "", part);
        Outcome o = carry_out(c, *s, p, q, w);
        if (!once) check_prefix(c, *s, p, w, false);
        Hash h;
        h << what << k << once << part << err << o.failed;
        c.state(h.h);
    }
    // a device that knows no positions (a pipe)
    dev::Plan q;
    q.at_seek = 0;
    Outcome o = carry_out(c, *s, p, q, what + ", no positioning");
    if (o.failed < 0) check_prefix(c, *s, p, what + ", no positioning", true);
}
// a slow device is no error: parts of any size and interruptions
static void slow_writes(Ctx& c)
{
    string what;
    auto s = pick_script(c, what);
    string p = c.path("f.out");
    for (size_t most : { 0, 1, 2, 3, 100, 239, 240, 3199, 4096, 8190, 8191 }) for (int i = 0; i < 2; ++i) {
        if (most && most < 100 && s->image.size() > 12000) continue;
        dev::Plan q;
        q.most = most; q.interrupted = i;
        string w = what + fmt(", at most %zu bytes a call%s", most, i ? ", interrupted" : "");
        Outcome o = carry_out(c, *s, p, q, w);
        if (o.failed >= 0) c.fail(w + ": fails");
        check_prefix(c, *s, p, w, true);
        Hash h;
        h << what << most << i;
        c.state(h.h);
    }
}
// ------------------------------------------------------------------ readers
struct Source {
    string path;
    virtual ~Source() = default;
    virtual void open() = 0;
    virtual string look() = 0;                 // compares what was read on opening
    virtual bool has() = 0;
    virtual string read(size_t n, bool hdr) = 0; // compares with trace n
    virtual void close() = 0;
    size_t traces = 0;
};
struct SegySource : Source {
    segy::MFile f;
    bool sorted;
    vector<segy::MTrace> exp;
    std::unique_ptr<sedaman::ISEGY> r;
    SegySource(segy::Layout const& l, vector<int> const& ln, bool sorted, string const& p) : f(segy::build(l, ln[0], ln)), sorted(sorted)
    {
        path = p;
        spew(p, f.bytes());
        traces = ln.size();
        for (size_t i = 0; i < traces; ++i) exp.push_back(f.expected(sorted ? traces - 1 - i : i));
    }
    void open() override { if (sorted) r = std::make_unique<sedaman::ISEGYSorted1D>(path, "KEY", f.map); else r = std::make_unique<sedaman::ISEGY>(path, f.map); }
    string look() override
    {
        string d = segy::diff_text(f.text, r->text_headers(), "text headers");
        if (d.empty()) d = segy::diff_text(f.trailer, r->trailer_stanzas(), "trailer stanzas");
        if (d.empty()) d = segy::diff_bin(segy::dec_bin(segy::enc_bin(f.bin)), r->binary_header());
        return d;
    }
    bool has() override { return r->has_trace(); }
    string read(size_t n, bool hdr) override { return hdr ? segy::diff_hdr(exp[n].hdr, r->read_header()) : segy::diff_trace(exp[n], r->read_trace()); }
    void close() override { r.reset(); }
};
struct SegdSource : Source {
    vector<segd::Record> f;
    segd::ExtMap em;
    vector<std::pair<segd::Record const*, segd::MTrace const*>> exp;
    std::unique_ptr<sedaman::ISEGD> r;
    SegdSource(int k, int samples, string const& p)
    {
        path = p;
        f = segd::act_input(k);
        em = segd::act_em(k);
        if (samples) {
            segd::Shape s;
            s.rev = 2; s.format = 8058; s.chans = 3; s.samples = samples; s.n_ext = 1; s.trailer = 2; s.extended = 40;
            f = { segd::build(s), segd::build(s) };
            em = {};
        }
        string b;
        for (auto& x : f) { b += x.bytes(); for (auto& t : x.tr) exp.push_back({ &x, &t }); }
        spew(p, b);
        traces = exp.size();
    }
    void open() override { r = std::make_unique<sedaman::ISEGD>(path, em); }
    string look() override { return segd::diff_headers(f[0], *r); }
    bool has() override { return r->has_record() && r->has_trace(); }
    string read(size_t n, bool) override { return segd::diff_trace(*exp[n].first, *exp[n].second, r->read_trace(), em); }
    void close() override { r.reset(); }
};
static std::unique_ptr<Source> pick_source(Ctx& c, string& what)
{
    int kind = c.pick(3);
    if (kind == 2) {
        int k = c.pick(segd::act_inputs + 2);
        c.shard();
        what = fmt("SEG-D input %d", k);
        return std::make_unique<SegdSource>(k < segd::act_inputs ? k : 0, k < segd::act_inputs ? 0 : k == segd::act_inputs ? 300 : 2500, c.path("f.sgd"));
    }
    segy::Layout l = segy::pick_layout(c, { 5 }, { segy::BE, segy::LE }, false);
    int ln = c.pick((int)lens.size());
    c.shard();
    if (l.wide || (!c.thorough() && (l.endian == segy::LE) != ((l.n_ext + l.n_trail + l.add) % 2 == 1))) return nullptr;
    what = fmt("SEG-Y %srevision %d, %d extended headers%s, gap %d, %d additional headers, %d stanzas%s, lengths %d", kind ? "sorted " : "", l.rev, l.n_ext, l.ext_term ? " terminated" : "",
        l.gap, l.add, l.n_trail, l.trail_term ? " terminated" : "", ln);
    return std::make_unique<SegySource>(l, lens[ln], kind == 1, c.path("f.sgy"));
}
// reads everything; way: traces, headers, alternating, asking twice
static Outcome read_all(Ctx& c, Source& s, dev::Plan const& plan, int way, string const& what)
{
    Outcome o;
    dev::reset(plan);
    size_t n = 0;
    // one call; false: it failed
    auto call = [&](char const* name, auto&& fn) {
        long had = dev::refused;
        c.step();
        try { dev::Arm a; fn(); }
        catch (std::exception& e) {
            if (!dev::refused) c.fail(what + ": " + name + " fails though nothing was refused: " + e.what());
            if (o.failed < 0) { o.failed = (int)n; o.error = e.what(); }
            return false;
        }
        if (dev::refused > had && plan.at_seek < 0) c.fail(what + ": " + name + fmt(" before trace %zu", n) + " does not report that the device failed");
        return true;
    };
    string d;
    if (!call("opening", [&] { s.open(); })) { o.refused = dev::refused; return o; }
    d = s.look();
    if (!d.empty()) c.fail(what + ": " + d);
    for (size_t tries = 0; tries < s.traces + 6; ++tries) {
        bool has = true;
        if (!call("has_trace", [&] { has = s.has(); })) continue;
        if (way == 3 && !call("has_trace", [&] { has = s.has(); })) continue;
        if (o.failed < 0 && has != (n < s.traces)) c.fail(what + fmt(": has_trace gives %d after %zu of %zu traces", has, n, s.traces));
        if (!has) { if (o.failed < 0) break; continue; }
        if (n >= s.traces) { if (o.failed < 0) break; continue; }
        if (!call("reading", [&] { d = s.read(n, way == 1 || (way == 2 && n % 2)); })) continue;
        if (!d.empty()) c.fail(what + fmt(": trace %zu: ", n) + d);
        ++n;
    }
    if (o.failed < 0 && n != s.traces) c.fail(what + fmt(": %zu traces instead of %zu", n, s.traces));
    call("destruction", [&] { s.close(); });
    o.refused = dev::refused;
    return o;
}
static void read_calls(Ctx& c)
{
    string what;
    auto s = pick_source(c, what);
    if (!s) return;
    for (int way = 0; way < 4; ++way) {
        read_all(c, *s, dev::Plan(), way, what);
        long n = dev::reads;
        for (long k = 0; k < n; ++k) for (int once = 0; once < 2; ++once) {
            dev::Plan q;
            q.at_read = k; q.once = once;
            Outcome o = read_all(c, *s, q, way, what + fmt(", way %d, read call %ld of %ld fails%s", way, k, n, once ? " once" : ""));
            if (o.failed < 0) c.fail(what + fmt(", way %d: failure of read call %ld is not reported", way, k));
            Hash h;
            h << what << way << k << once << o.failed;
            c.state(h.h);
        }
        // a device that knows no positions (a pipe)
        dev::Plan q;
        q.at_seek = 0;
        read_all(c, *s, q, way, what + fmt(", way %d, no positioning", way));
    }
}
static void slow_reads(Ctx& c)
{
    string what;
    auto s = pick_source(c, what);
    if (!s) return;
    for (int way = 0; way < 4; ++way) for (size_t most : { 0, 1, 7, 100, 239, 4096, 8190 }) for (int i = 0; i < 2; ++i) {
        if (most == 1 && !c.thorough() && way) continue;
        dev::Plan q;
        q.most = most; q.interrupted = i;
        Outcome o = read_all(c, *s, q, way, what + fmt(", way %d, at most %zu bytes a call%s", way, most, i ? ", interrupted" : ""));
        Hash h;
        h << what << way << most << i << o.failed;
        c.state(h.h);
    }
}
// names that cannot be opened
static void names(Ctx& c)
{
    int what = c.pick(7);
    int name = c.pick(5);
    c.shard();
    string dir = c.path("d");
    mkdir(dir.c_str(), 0700);
    unlink(c.path("gone").c_str());
    string p = name == 0 ? c.path("gone") : name == 1 ? dir : name == 2 ? c.path("gone/f") : name == 3 ? string() : c.path("") + string(300, 'x');
    bool reader = what < 3;
    if (!reader && name == 0) return; // is made
    bool thrown = false;
    try {
        dev::reset(dev::Plan());
        segy::HMap m = sedaman::CommonSEGY::default_trace_header;
        if (what == 0) sedaman::ISEGY r(p);
        if (what == 1) sedaman::ISEGYSorted1D r(p, "FFID", m);
        if (what == 2) sedaman::ISEGD r(p);
        if (what == 3) sedaman::OSEGYRev0 w(p);
        if (what == 4) sedaman::OSEGYRev1 w(p);
        if (what == 5) sedaman::OSEGYRev2 w(p);
        if (what == 6) {
            segd::Shape s;
            spew(c.path("in.sgd"), segd::canonical(s).bytes());
            segd::Parts q(c.path("in.sgd"));
            q.open(p);
        }
    } catch (std::exception&) { thrown = true; }
    c.step();
    if (!thrown) c.fail(fmt("class %d: name of kind %d is opened", what, name));
    if (reader && access(c.path("gone").c_str(), F_OK) == 0) c.fail("a reader makes a file");
    c.state(what * 10 + name);
}
int main(int argc, char** argv)
{
    signal(SIGPIPE, SIG_IGN);
    return explore_main(argc, argv, { { "full", full }, { "write_calls", write_calls }, { "slow_writes", slow_writes }, { "read_calls", read_calls }, { "slow_reads", slow_reads }, { "names", names } });
}
