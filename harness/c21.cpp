// C21: library errors carry their message and can be copied.
#include "segy_model.hpp"
using namespace segy;
using sedaman::Exception;

static vector<string> const& texts()
{
    static vector<string> const t = { "", "reason", "a reason that is longer than the small string buffer of std::string", string(5000, 'x') };
    return t;
}
// all histories of copies and moves over a set of live errors
static void histories(Ctx& c)
{
    int const N = 3, depth = c.thorough() ? 4 : 3;
    int ctor = c.pick(2), ti = c.pick((int)texts().size());
    string file = "some/file.cpp", msg = texts()[ti];
    auto mk = [&](string const& m) {
        if (ctor == 0) { string const f = file, x = m; return new Exception(f, 4711ull, x); }
        return new Exception(string(file), 4711ull, string(m));
    };
    std::unique_ptr<Exception> e[N];
    string txt[N];
    bool live[N] = {};
    char const* ptr[N] = {}; // a text handed out stays as it is as long as its error lives
    Exception* of[N] = {};
    e[0].reset(mk(msg));
    e[1].reset(mk(msg + "2"));
    for (int i = 0; i < 2; ++i) {
        txt[i] = e[i]->what();
        live[i] = true;
        string w = msg + (i ? "2" : "");
        if (txt[i].find(w) == string::npos) c.fail("the message does not contain the reason: " + txt[i]);
        if (txt[i].find(file) == string::npos || txt[i].find("4711") == string::npos) c.fail("the message does not contain the place: " + txt[i]);
    }
    string log;
    for (int k = 0; k < depth; ++k) {
        int op = c.pick(5), i = c.pick(N), j = op < 4 ? c.pick(N) : i;
        if (k == 1) c.shard();
        log += fmt("%d %d<-%d; ", op, i, j);
        if (!live[j]) return;
        c.step();
        if (op == 0) { // copy
            auto n = std::make_unique<Exception>((Exception const&)*e[j]);
            e[i] = std::move(n); txt[i] = txt[j]; live[i] = true;
        } else if (op == 1) { // move
            auto n = std::make_unique<Exception>(std::move(*e[j]));
            string x = txt[j]; live[j] = false;
            e[i] = std::move(n); txt[i] = x; live[i] = true;
        } else if (op == 2) { // throw a copy, catch by reference to the base, copy what was caught
            try { throw Exception(*e[j]); } catch (std::exception const& b) {
                if (txt[j] != b.what()) c.fail(log + "thrown copy says: " + b.what());
                auto* d = dynamic_cast<Exception const*>(&b);
                c.require(d, "not an Exception");
                e[i] = std::make_unique<Exception>(*d); txt[i] = txt[j]; live[i] = true;
            }
        } else if (op == 3) { // exception_ptr: rethrown twice, caught by value
            auto p = std::make_exception_ptr(*e[j]);
            for (int q = 0; q < 2; ++q) {
                try { std::rethrow_exception(p); } catch (Exception x) {
                    if (txt[j] != x.what()) c.fail(log + "rethrown copy says: " + x.what());
                    if (q) { e[i] = std::make_unique<Exception>(x); txt[i] = txt[j]; live[i] = true; }
                }
            }
        } else { e[i].reset(); live[i] = false; } // destroy one
        for (int q = 0; q < N; ++q)
            if (live[q] && of[q] == e[q].get() && txt[q] != ptr[q]) c.fail(log + fmt("text of error %d turned into '%s' expected '%s'", q, ptr[q], txt[q].c_str()));
        for (int q = 0; q < N; ++q) {
            of[q] = live[q] ? e[q].get() : nullptr;
            if (live[q]) ptr[q] = e[q]->what();
        }
        for (int q = 0; q < N; ++q)
            if (live[q] && txt[q] != ptr[q]) c.fail(log + fmt("text of error %d turned into '%s' expected '%s'", q, ptr[q], txt[q].c_str()));
        for (int q = 0; q < N; ++q)
            if (live[q] && txt[q] != e[q]->what()) c.fail(log + fmt("error %d says '%s' expected '%s'", q, e[q]->what(), txt[q].c_str()));
        Hash h;
        for (int q = 0; q < N; ++q) h << live[q] << txt[q];
        h << ctor << op;
        c.state(h.h);
    }
    c.note(log);
}
// messages of every length up to a few hundred bytes and around powers of two, of every byte, with marks of format strings;
// every magnitude of line numbers; the texts have to arrive whole, in both forms of construction, and in a copy
static void contents(Ctx& c)
{
    int ctor = c.pick(2), kind = c.pick(4), part = c.pick(32);
    c.shard();
    auto pattern = [](size_t n, int k) { string s(n, 0); for (size_t i = 0; i < n; ++i) s[i] = (char)(1 + (i * 7 + k) % 255); return s; };
    auto check = [&](string const& file, unsigned long long line, string const& msg) {
        std::unique_ptr<Exception> e(ctor ? new Exception(string(file), line, string(msg)) : new Exception(file, line, msg));
        c.step();
        string w = e->what();
        if (w.find(msg) == string::npos) c.fail(fmt("a message of %zu bytes (file name of %zu, line %llu) came out with %zu bytes: ", msg.size(), file.size(), line, w.size()) + w.substr(0, 60));
        Exception d(*e), m(std::move(*e));
        if (w != d.what() || w != m.what()) c.fail(fmt("a copy of a message of %zu bytes differs", msg.size()));
        Hash h;
        h << ctor << kind << (uint64_t)w.size() << line << (msg.empty() ? 0 : (int)msg[0]);
        c.state(h.h);
    };
    if (kind == 0) {
        for (int n = part * 20; n < part * 20 + 20; ++n) check("f.cpp", 1, pattern(n, n));
        if (part < 21) for (int d = -1; d <= 1; ++d) check("f.cpp", 1, pattern(std::max(0l, (1l << part) + d), part));
    } else if (kind == 1) {
        for (int b = part * 8; b < part * 8 + 8; ++b) if (b) for (int n : { 1, 2, 16 }) check("f.cpp", 1, string(n, (char)b));
    } else if (kind == 2) {
        for (int b = part * 2; b < part * 2 + 2; ++b) for (int d = -1; d <= 1; ++d) check("f.cpp", (1ull << b) + d, "reason");
        for (auto* t : { "%", "%%", "%s", "%n", "%d %s", "100%", "{}", "{0}", "\\n", "\n", "a\tb", " lead", "trail " }) check("f.cpp", part, t);
    } else
        for (int n = part * 20; n < part * 20 + 20; ++n) check(pattern(n, n), 77, "reason"), check(pattern(n, n), 77, pattern(n, 5));
}
// errors raised by the library itself, caught as std::exception, by value and through exception_ptr
static void raised(Ctx& c)
{
    int what = c.pick(9), how = c.pick(3), copies = c.pick(4);
    c.shard();
    string p = c.path("f.sgy");
    auto provoke = [&] {
        Bin b = {};
        b.format_code = 3; b.samp_per_tr = 1; b.endianness = BE;
        switch (what) {
        case 0: { HMap m { { "SHORT", {} } }; Writer w(1, p, {}, b, {}, m); break; }
        case 1: { HMap m { { "SEG00000", { { 0, { "A", VT::int32_t } }, { 2, { "B", VT::int32_t } } } } }; Writer w(1, p, {}, b, {}, m); break; }
        case 2: { HMap m { { "SEG00000", { { 238, { "A", VT::int32_t } } } } }; Writer w(2, p, {}, b, {}, m); break; }
        case 3: { b.format_code = 99; Writer w(0, p, {}, b, {}, std_map()); break; }
        case 4: { b.endianness = 7; Writer w(2, p, {}, b, {}, std_map()); break; }
        case 5: { Writer w(1, p, { "short" }, b, {}, std_map()); break; }
        case 6: { Writer w(0, p, {}, b, {}, std_map()); MTrace t; t.smp = { 1, 2 }; w.write(t); break; }
        case 7: { spew(p, text_block('A', 1) + enc_bin(b) + string(100, 0)); sedaman::ISEGY r(p); r.read_trace(); break; }
        case 8: { spew(p, text_block('A', 1) + enc_bin(b) + string(242, 0)); sedaman::ISEGYSorted1D r(p, "NO_SUCH"); break; }
        }
    };
    string msg;
    c.step();
    try { provoke(); c.fail(fmt("misuse %d raised nothing", what)); } catch (std::exception& e) { msg = e.what(); }
    c.require(!msg.empty(), "an empty message");
    if (how == 0) {
        try { provoke(); } catch (Exception e) {
            vector<Exception> v;
            for (int i = 0; i < copies; ++i) v.push_back(e);
            for (auto& x : v) if (msg != x.what()) c.fail("copy says " + string(x.what()));
            if (msg != e.what()) c.fail("original says " + string(e.what()) + " after copying");
        }
    } else if (how == 1) {
        std::exception_ptr q;
        try { provoke(); } catch (...) { q = std::current_exception(); }
        for (int i = 0; i <= copies; ++i) try { std::rethrow_exception(q); } catch (std::exception const& e) { if (msg != e.what()) c.fail("rethrown says " + string(e.what())); }
    } else {
        // nested rethrow of copies
        std::function<void(int, Exception)> nest = [&](int d, Exception e) {
            if (d == 0) throw e;
            try { nest(d - 1, e); } catch (Exception const& x) { throw Exception(x); }
        };
        try { provoke(); } catch (Exception const& e) {
            try { nest(copies, e); } catch (std::exception const& x) { if (msg != x.what()) c.fail("nested copy says " + string(x.what())); }
            if (msg != e.what()) c.fail("original says " + string(e.what()));
        }
    }
    Hash h;
    h << what << how << copies;
    c.state(h.h);
    c.note(msg.substr(msg.rfind('/') == string::npos ? 0 : msg.rfind('/')));
}
int main(int argc, char** argv)
{
    return explore_main(argc, argv, { { "histories", histories }, { "contents", contents }, { "raised", raised } });
}
