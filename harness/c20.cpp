// C20: readers and writers are independent of one another.
// Each actor has a fixed script (open, operations, close) and checks its own results against the model; all
// interleavings of the scripts are explored.
#include "segy_layouts.hpp"
#include "segd_actors.hpp"
#include "Exception.hpp"
#include <condition_variable>
#include <mutex>
#include <thread>
using namespace segy;

struct Actor {
    virtual ~Actor() {}
    virtual int steps() const = 0;
    // performs step k; error text if the result is not the one expected
    virtual string step(int k) = 0;
    // after everything is closed
    virtual string final_check() { return ""; }
};
// the input files, one per kind, written once per worker
static MFile const& input(int k)
{
    static MFile f[4];
    static bool done = false;
    if (!done) {
        done = true;
        for (int i = 0; i < 4; ++i) {
            Layout l {};
            l.rev = i == 3 ? 2 : i == 0 ? 0 : 1;
            l.endian = i == 1 ? LE : BE;
            l.code = i == 0 ? 3 : i == 1 ? 5 : i == 2 ? 8 : 2;
            l.fixed = i % 2 == 0; l.gap = i == 3 ? 240 : -1;
            l.n_ext = i == 2 ? 1 : 0; l.add = i == 3 ? 1 : 0; l.n_trail = i == 3 ? 1 : 0;
            f[i] = build(l, 3, { 3, 1, 4 });
        }
    }
    return f[k];
}
struct Reader : Actor {
    int k; string path; std::unique_ptr<sedaman::ISEGY> r; int pos = 0;
    Reader(int k, string p) : k(k), path(p) {}
    int steps() const override { return 5; }
    string step(int s) override
    {
        MFile const& f = input(k);
        if (s == 0) { r = std::make_unique<sedaman::ISEGY>(path, f.map); return diff_bin(dec_bin(enc_bin(f.bin)), r->binary_header()); }
        if (s <= 3) {
            if (!r->has_trace()) return "no trace";
            string d = s == 2 ? diff_hdr(f.expected(pos).hdr, r->read_header()) : diff_trace(f.expected(pos), r->read_trace());
            ++pos;
            return d;
        }
        if (r->has_trace()) return "trace remains";
        string d = diff_text(f.text, r->text_headers(), "text headers");
        if (d.empty()) d = diff_text(f.trailer, r->trailer_stanzas(), "trailer stanzas");
        r.reset();
        return d;
    }
};
struct SortedReader : Actor {
    int k; string path; std::unique_ptr<sedaman::ISEGYSorted1D> r; int pos = 0;
    SortedReader(int k, string p) : k(k), path(p) {}
    int steps() const override { return 5; }
    string step(int s) override
    {
        MFile const& f = input(k);
        if (s == 0) { r = std::make_unique<sedaman::ISEGYSorted1D>(path, "KEY", f.map); return r->get_keys().size() == 3 ? "" : "wrong keys"; }
        if (s == 2) {
            auto t = r->get_traces(f.tr[1].hdr.at("KEY"));
            if (t.size() != 1) return "wrong number of traces for a key";
            string d = diff_trace(f.expected(1), t[0]);
            if (!d.empty()) return d;
        }
        if (s <= 3) {
            if (!r->has_trace()) return "no trace";
            string d = s == 3 ? diff_hdr(f.expected(2 - pos).hdr, r->read_header()) : diff_trace(f.expected(2 - pos), r->read_trace());
            ++pos;
            return d;
        }
        if (r->has_trace()) return "trace remains";
        r.reset();
        return "";
    }
};
struct WriterActor : Actor {
    int k; string path; std::unique_ptr<Writer> w;
    WriterActor(int k, string p) : k(k), path(p) {}
    static MFile model(int k)
    {
        MFile f = input(k);
        int rev = f.bin.SEGY_rev_major_ver;
        f.gap = 0;
        f.bin.byte_off_of_first_tr = 0;
        f.bin = derived_bin(rev, f.bin, f.text.size(), f.trailer.size());
        return f;
    }
    int steps() const override { return 5; }
    string step(int s) override
    {
        MFile f = model(k);
        if (s == 0) w = std::make_unique<Writer>(f.bin.SEGY_rev_major_ver, path, f.text, f.bin, f.trailer, f.map);
        else if (s <= 3) w->write(f.tr[s - 1]);
        else w.reset();
        return "";
    }
    string final_check() override { return diff(model(k).bytes(), slurp(path)); }
};
// a writer that takes everything from its first trace
struct DerivingWriter : Actor {
    int rev; string path; std::unique_ptr<Writer> w;
    DerivingWriter(int r, string p) : rev(r), path(p) {}
    MFile model() const
    {
        MFile f;
        f.text = { text_block('q', rev) };
        f.bin = derived_bin(rev, {}, 1, 0);
        f.bin.samp_per_tr = (int16_t)(2 + rev);
        f.bin.samp_int = (int16_t)(100 * (rev + 1));
        f.map = { { "SEG00000", { { (uint32_t)(4 * rev), { "N", VT::int32_t } }, { 114, { "SAMP_NUM", VT::int16_t } }, { 116, { "SAMP_INT", VT::int16_t } } } } };
        for (int i = 0; i < 2; ++i) {
            MTrace t;
            t.hdr = { { "N", (int64_t)(i + 1) }, { "SAMP_NUM", (int64_t)(2 + rev) }, { "SAMP_INT", (int64_t)(100 * (rev + 1)) } };
            for (int s = 0; s < 2 + rev; ++s) t.smp.push_back(s + 10 * i);
            f.tr.push_back(t);
        }
        return f;
    }
    int steps() const override { return 4; }
    string step(int s) override
    {
        MFile f = model();
        if (s == 0) w = std::make_unique<Writer>(rev, path, f.text, Bin {}, vector<string> {}, f.map);
        else if (s <= 2) w->write(f.tr[s - 1]);
        else w.reset();
        return "";
    }
    string final_check() override { return diff(model().bytes(), slurp(path)); }
};
// copies a file: what is read is written at once
struct Copier : Actor {
    int k; string in, out; std::unique_ptr<sedaman::ISEGY> r; std::unique_ptr<sedaman::OSEGY> w;
    Copier(int k, string i, string o) : k(k), in(i), out(o) {}
    int steps() const override { return 5; }
    string step(int s) override
    {
        if (s == 0) {
            r = std::make_unique<sedaman::ISEGY>(in, input(k).map);
            Bin b = r->binary_header();
            int rev = b.SEGY_rev_major_ver;
            if (rev == 0) w = std::make_unique<sedaman::OSEGYRev0>(out, r->text_headers()[0], b, input(k).map);
            else if (rev == 1) w = std::make_unique<sedaman::OSEGYRev1>(out, r->text_headers(), b, input(k).map);
            else w = std::make_unique<sedaman::OSEGYRev2>(out, r->text_headers(), b, r->trailer_stanzas(), input(k).map);
        } else if (s <= 3) {
            Trace t = r->read_trace();
            w->write_trace(t);
        } else { w.reset(); r.reset(); }
        return "";
    }
    string final_check() override
    {
        MFile f = WriterActor::model(k);
        f.bin = derived_bin(k == 0 ? 0 : k == 3 ? 2 : 1, dec_bin(enc_bin(input(k).bin)), f.text.size(), f.trailer.size());
        return diff(f.bytes(), slurp(out));
    }
};
struct Changer : Actor { // uses the conversions and changes values in place
    int steps() const override { return 4; }
    string step(int s) override
    {
        string t;
        for (int i = 0; i < 256; ++i) t += (char)(i + s * 3);
        string o = t;
        CommonSEGY::ascii_to_ebcdic(t);
        CommonSEGY::ebcdic_to_ascii(t);
        if (t != o) return "conversion is not inverse";
        return "";
    }
};
struct Messages : Actor { // exceptions and descriptions
    int slot; std::unique_ptr<sedaman::Exception> e;
    Messages(int s) : slot(s) {}
    int steps() const override { return 4; }
    string text(int s) const { return string(5 + 30 * slot + s, (char)('a' + s + 7 * slot)); }
    string step(int s) override
    {
        using N = CommonSEGY::BinaryHeader::Name;
        if (s == 0) { e = std::make_unique<sedaman::Exception>("file", 17 + slot, text(0)); return ""; }
        sedaman::Exception x(*e), y("other", s, text(s));
        if (string(e->what()).find(text(0)) == string::npos || string(x.what()) != e->what()) return string("message is ") + e->what();
        if (string(y.what()).find(text(s)) == string::npos) return string("message is ") + y.what();
        string a = CommonSEGY::BinaryHeader::name_as_string((N)(slot * 9 + s)), b = CommonSEGY::BinaryHeader::name_as_string((N)(slot * 9 + s));
        return a == b && !a.empty() ? "" : "description changes";
    }
};
static int const kinds = segd_actor_kinds + 18;
static std::unique_ptr<Actor> make(Ctx& c, int kind, int slot)
{
    auto in = [&](int k) { return c.path(fmt("in%d.sgy", k).c_str()); };
    string out = c.path(fmt("out%d", slot).c_str());
    if (kind < 4) return std::make_unique<Reader>(kind, in(kind));
    if (kind < 8) return std::make_unique<SortedReader>(kind - 4, in(kind - 4));
    if (kind < 12) return std::make_unique<WriterActor>(kind - 8, out);
    if (kind < 15) return std::make_unique<DerivingWriter>(kind - 12, out);
    if (kind == 15) return std::make_unique<Copier>(3, in(3), out);
    if (kind == 16) return std::make_unique<Changer>();
    if (kind == 17 + segd_actor_kinds) return std::make_unique<Messages>(slot);
    return segd_actor<Actor>(c, kind - 17, out);
}
static void inputs(Ctx& c)
{
    static string done;
    if (done == c.dir()) return;
    done = c.dir();
    for (int k = 0; k < 4; ++k) spew(c.path(fmt("in%d.sgy", k).c_str()), input(k).bytes());
    segd_inputs(c);
}
static void interleave(Ctx& c, vector<int> const& ks)
{
    inputs(c);
    vector<std::unique_ptr<Actor>> a;
    for (size_t i = 0; i < ks.size(); ++i) a.push_back(make(c, ks[i], (int)i));
    vector<int> pc(ks.size(), 0);
    string log;
    while (1) {
        vector<int> en;
        for (size_t i = 0; i < a.size(); ++i) if (pc[i] < a[i]->steps()) en.push_back((int)i);
        if (en.empty()) break;
        int i = en[c.pick((int)en.size())];
        log += (char)('a' + i);
        string d;
        try { d = a[i]->step(pc[i]); } catch (mc::Violation&) { throw; } catch (mc::Skip&) { throw; } catch (std::exception& e) { d = string("exception ") + e.what(); }
        c.step();
        if (!d.empty()) {
            string k;
            for (int x : ks) k += fmt("%d ", x);
            c.fail("actors " + k + "schedule " + log + ": " + d);
        }
        ++pc[i];
        Hash h;
        for (size_t q = 0; q < ks.size(); ++q) h << ks[q] << pc[q];
        c.state(h.h);
    }
    for (size_t i = 0; i < a.size(); ++i) {
        string d = a[i]->final_check();
        if (!d.empty()) c.fail(fmt("actor %d, schedule %s: file: ", ks[i], log.c_str()) + d);
    }
    c.note(log);
}
// all pairs of kinds, all interleavings
static void pairs(Ctx& c)
{
    int a = c.pick(kinds), b = a + c.pick(kinds - a);
    c.shard();
    interleave(c, { a, b });
}
// triples over one representative per class, all interleavings
static void triples(Ctx& c)
{
    vector<int> rep = { 3, 7, 11, 14 };
    for (int i = 0; i < segd_actor_kinds; ++i) if (c.thorough() || segd_actor_rep(i)) rep.push_back(17 + i);
    if (c.thorough()) { rep.push_back(1); rep.push_back(4); rep.push_back(15); }
    int n = (int)rep.size();
    int x = c.pick(n), y = c.pick(n), z = c.pick(n);
    if (!(x <= y && y <= z)) return;
    int first = c.pick(3);
    c.shard();
    // with three scripts the schedule is explored completely only up to the bound on context switches
    inputs(c);
    vector<int> ks = { rep[x], rep[y], rep[z] };
    vector<std::unique_ptr<Actor>> a;
    for (int i = 0; i < 3; ++i) a.push_back(make(c, ks[i], i));
    int pc[3] = {}, cur = first, sw = 0, bound = c.thorough() ? 5 : 2;
    string log;
    while (1) {
        vector<int> en;
        bool cur_on = pc[cur] < a[cur]->steps();
        if (cur_on) en.push_back(cur);
        if (!cur_on || sw < bound) for (int i = 0; i < 3; ++i) if (i != cur && pc[i] < a[i]->steps()) en.push_back(i);
        if (en.empty()) break;
        int i = en[c.pick((int)en.size())];
        if (i != cur && cur_on) ++sw;
        cur = i;
        log += (char)('a' + i);
        string d;
        try { d = a[i]->step(pc[i]); } catch (mc::Violation&) { throw; } catch (mc::Skip&) { throw; } catch (std::exception& e) { d = string("exception ") + e.what(); }
        c.step();
        if (!d.empty()) c.fail(fmt("actors %d %d %d schedule %s: ", ks[0], ks[1], ks[2], log.c_str()) + d);
        ++pc[i];
        Hash h;
        for (int q = 0; q < 3; ++q) h << ks[q] << pc[q];
        c.state(h.h);
    }
    for (int i = 0; i < 3; ++i) {
        string d = a[i]->final_check();
        if (!d.empty()) c.fail(fmt("actor %d, schedule %s: file: ", ks[i], log.c_str()) + d);
    }
    c.note(log);
}
// ------------------------------------------------------------------ two threads, preempted within an operation
// The library is compiled so that every basic block of it calls this: a place where the running thread can be preempted.
// A place is taken at its first passages and then at every power of two.
static thread_local bool watched = false;
static long countdown = -1; // only touched by the watched thread
struct Place { void* pc; uint32_t epoch, count; };
static Place places[1 << 14];
static uint32_t epoch = 0;
static __attribute__((noinline)) void preempted();
extern "C" __attribute__((no_sanitize_address)) void __sanitizer_cov_trace_pc()
{
    if (!watched || countdown < 0) return;
    void* pc = __builtin_return_address(0);
    size_t i = ((uintptr_t)pc * 0x9e3779b97f4a7c15ull) >> 50;
    while (places[i].epoch == epoch && places[i].pc != pc) i = (i + 1) & ((1 << 14) - 1);
    if (places[i].epoch != epoch) places[i] = { pc, epoch, 0 };
    uint32_t n = ++places[i].count;
    if (n > 3 && (n & (n - 1))) return;
    if (countdown-- == 0) preempted();
}
// the other thread: runs a job when told to
struct Other {
    std::mutex m;
    std::condition_variable cv;
    std::function<void()> job;
    bool busy = false;
    int slow = 0;
    Other() { std::thread([this] { loop(); }).detach(); }
    void loop()
    {
        std::unique_lock<std::mutex> l(m);
        while (1) {
            cv.wait(l, [&] { return busy; });
            l.unlock();
            job();
            l.lock();
            busy = false;
            cv.notify_all();
        }
    }
    void start(std::function<void()> f)
    {
        std::lock_guard<std::mutex> l(m);
        job = std::move(f);
        busy = true;
        cv.notify_all();
    }
    // whether it ended in time; it does not when it waits for something the preempted thread holds
    bool wait(int ms)
    {
        std::unique_lock<std::mutex> l(m);
        return cv.wait_for(l, std::chrono::milliseconds(ms), [&] { return !busy; });
    }
};
static Other* other = nullptr;
static std::function<void()> other_job;
static void preempted()
{
    watched = false;
    other->start(other_job);
    if (!other->wait(other->slow > 20 ? 1 : 200)) ++other->slow;
    watched = true;
}
static string guarded(Actor& a, int k)
{
    try { return a.step(k); } catch (std::exception& e) { return string("exception ") + e.what(); }
}
// one operation of an actor is preempted at each of its places while another actor runs from opening to closing
static void threads(Ctx& c)
{
    struct Pair { int a; vector<int> b; };
    static vector<Pair> const ps = { { 0, { 1, 2 } }, { 1, { 3, 7 } }, { 3, { 1, 0 } }, { 6, { 7, 1 } }, { 7, { 5, 0 } }, { 8, { 11, 12 } }, { 9, { 10, 13 } }, { 11, { 9, 8 } }, { 13, { 14, 9 } },
        { 14, { 13, 11 } }, { 16, { 16, 0 } }, { 17, { 18, 20 } }, { 18, { 17, 19 } }, { 19, { 20, 18 } }, { 20, { 19, 21 } }, { 22, { 23, 24 } }, { 23, { 24, 22 } }, { 24, { 22, 23 } }, { 26, { 26, 16 } } };
    Pair const& p = ps[c.pick((int)ps.size())];
    int nb = c.pick(2), s = c.pick(5), part = c.pick(8);
    c.shard();
    inputs(c);
    if (!other) other = new Other;
    int kb = p.b[nb];
    { // everything the model keeps is there before threads run
        auto a = make(c, p.a, 0);
        if (s >= a->steps()) return;
        auto b = make(c, kb, 1);
        for (int k = 0; k < a->steps(); ++k) guarded(*a, k);
        for (int k = 0; k < b->steps(); ++k) guarded(*b, k);
    }
    long stride = 1, n = 0;
    for (long at = part * stride;; at += 8 * stride, ++n) {
        auto a = make(c, p.a, 0);
        auto b = make(c, kb, 1);
        string db, da;
        auto run_b = [&] {
            for (int k = 0; k < b->steps() && db.empty(); ++k) db = guarded(*b, k);
            if (db.empty()) db = b->final_check();
        };
        other_job = run_b;
        for (int k = 0; k < s && da.empty(); ++k) da = guarded(*a, k);
        if (!da.empty()) c.fail(fmt("actor %d alone: ", p.a) + da);
        ++epoch;
        countdown = at;
        watched = true;
        da = guarded(*a, s);
        watched = false;
        bool reached = countdown < 0;
        countdown = -1;
        c.step();
        if (!reached) break; // the operation has no more places
        if (!other->wait(20000)) c.fail(fmt("actor %d and actor %d wait for each other", p.a, kb));
        for (int k = s + 1; k < a->steps() && da.empty(); ++k) da = guarded(*a, k);
        if (da.empty()) da = a->final_check();
        string what = fmt("actor %d in step %d preempted at place %ld by actor %d: ", p.a, s, at, kb);
        if (!da.empty()) c.fail(what + da);
        if (!db.empty()) c.fail(what + "the other: " + db);
        Hash h;
        h << p.a << s << kb << at;
        c.state(h.h);
    }
    c.note(fmt("actor %d step %d by %d: %ld places", p.a, s, kb, n));
}
int main(int argc, char** argv)
{
    return explore_main(argc, argv, { { "pairs", pairs }, { "triples", triples }, { "threads", threads } });
}
