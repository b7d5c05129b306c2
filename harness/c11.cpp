// C11: SEG-Y misuse is refused and a refused trace leaves no bytes behind.
#include "segy_layouts.hpp"
using namespace segy;

static bool acceptable(std::map<uint32_t, std::pair<string, VT>> const& m)
{
    bool used[240] = {};
    for (auto& p : m)
        for (int i = 0; i < vt_size(p.second.second); ++i) {
            uint64_t at = (uint64_t)p.first + i;
            if (at >= 240 || used[at]) return false;
            used[at] = true;
        }
    return true;
}
// a map given to one of the users of maps: accepted or refused?
// who: 0..2 writers, 3 reader, 4 reader with binary header, 5 sorted reader
static bool accepts(Ctx& c, int who, HMap const& m, Bin bin, string& msg)
{
    string p = c.path("w.sgy");
    c.step();
    try {
        if (who < 3) {
            Writer w(who, p, {}, bin, {}, m);
        } else {
            Bin b = bin;
            b.format_code = 3;
            b.endianness = BE;
            if (b.SEGY_rev_major_ver < 1) b.SEGY_rev_major_ver = 1;
            spew(p, text_block('A', 1) + enc_bin(b));
            if (who == 3) sedaman::ISEGY r(p, m);
            else if (who == 4) sedaman::ISEGY r(p, b, m);
            else sedaman::ISEGYSorted1D r(p, "X", m);
        }
    } catch (std::exception& e) {
        msg = e.what();
        return false;
    }
    return true;
}
// two typed fields at all offsets around each other and around the ends of the header
static void two_fields(Ctx& c)
{
    VT a = c.of(all_vt()), b = c.of(all_vt());
    int who = c.thorough() ? c.pick(6) : c.of({ 0, 2, 3, 4 });
    c.shard();
    int add = who == 2 || who == 4 ? c.pick(2) : 0;
    static vector<uint32_t> const base = { 0, 1, 100, 231, 232, 235, 236, 237, 238, 239, 240, 241, 255, 256, 65536, 0x7fffffff, 0x80000000u, 0xfffffff0u, 0xfffffff8u, 0xffffffffu };
    for (uint32_t o : base)
        for (int d = -1; d <= 9; ++d) {
            // -1: only the first field
            if (d == 0) continue;
            HMap m { { "SEG00000", { { 50, { "F", VT::int8_t } } } } };
            if (add) m.push_back({ "SEG00001", {} });
            auto& t = m[add].second;
            t.clear();
            t[o] = { "A", a };
            if (d > 0) { if ((uint64_t)o + d > 0xffffffffull) continue; t[o + d] = { "B", b }; }
            Bin bin = {};
            bin.samp_per_tr = 1;
            if (add) { bin.SEGY_rev_major_ver = 2; bin.max_num_add_tr_headers = 1; }
            bool want = acceptable(t);
            string msg;
            bool got = accepts(c, who, m, bin, msg);
            if (want != got) c.fail(fmt("user %d: fields of type %d at %u and type %d at %u (header %d): %s", who, (int)a, o, (int)b, d > 0 ? o + d : 0, add, got ? "accepted" : ("refused: " + msg).c_str()));
            Hash h;
            h << who << (int)a << (int)b << o << d << add << got;
            c.state(h.h);
        }
}
// three fields in a row, with every pattern of touching, overlapping and spaced
static void three_fields(Ctx& c)
{
    static vector<VT> const ts = { VT::uint8_t, VT::int16_t, VT::int24_t, VT::ibm, VT::ieee_double };
    VT a = c.of(ts), b = c.of(ts), d = c.of(ts);
    int who = c.of({ 1, 3 });
    c.shard();
    for (int x = 1; x <= 9; ++x) for (int y = 1; y <= 9; ++y) for (uint32_t o : { 0u, 37u, 224u, 230u }) {
        HMap m { { "SEG00000", { { o, { "A", a } }, { o + x, { "B", b } }, { o + x + y, { "C", d } } } } };
        bool want = acceptable(m[0].second);
        string msg;
        Bin bin = {};
        bin.samp_per_tr = 1;
        bool got = accepts(c, who, m, bin, msg);
        if (want != got) c.fail(fmt("user %d: types %d %d %d at %u %u %u: %s", who, (int)a, (int)b, (int)d, o, o + x, o + x + y, got ? "accepted" : ("refused: " + msg).c_str()));
        Hash h;
        h << who << (int)a << (int)b << (int)d << x << y << o << got;
        c.state(h.h);
    }
}
// names of the headers of the map, and their number against the declared one
static void names_counts(Ctx& c)
{
    int who = c.pick(6);
    int n = c.pick(5);
    c.shard();
    int bad = c.pick(n + 1); // which one has a bad name; n: none
    static vector<int> const lens = { 0, 1, 7, 9, 16, 3200 };
    int len = bad < n ? c.of(lens) : 8;
    int declared = c.pick(6); // major 2 and declared = 0..4; 5: no revision 2 header
    HMap m;
    for (int i = 0; i < n; ++i) m.push_back({ string(i == bad ? len : 8, 'N'), { { 0, { fmt("F%d", i), VT::int32_t } } } });
    Bin bin = {};
    bin.samp_per_tr = 1;
    if (declared < 5) { bin.SEGY_rev_major_ver = 2; bin.max_num_add_tr_headers = declared; }
    bool want = bad == n;
    // only users that are given a header declare a number
    if (who != 3 && who != 5 && declared < 5 && declared && n - 1 != declared) want = false;
    string msg;
    bool got = accepts(c, who, m, bin, msg);
    if (want != got) c.fail(fmt("user %d: map of %d headers, %d declared, name length %d: %s", who, n, declared, len, got ? "accepted" : ("refused: " + msg).c_str()));
    Hash h;
    h << who << n << bad << len << declared << got;
    c.state(h.h);
}
// every sample format code and byte order mark
static void codes(Ctx& c)
{
    int who = c.pick(6);
    int blk = c.pick(c.thorough() ? 256 : 5);
    c.shard();
    for (int k = 0; k < 256; ++k) {
        int code;
        if (c.thorough()) code = blk * 256 + k - 32768;
        else code = blk == 0 ? k - 128 : blk == 1 ? k * 256 : blk == 2 ? -k * 256 : blk == 3 ? 32767 - k : k - 32768;
        if (code < -32768 || code > 32767) continue;
        Bin b = {};
        b.format_code = (int16_t)code;
        b.samp_per_tr = 1;
        b.endianness = BE;
        bool want = fmt_of(code).width > 0 || (who < 3 && code == 0);
        bool got = true;
        string p = c.path("w.sgy");
        c.step();
        try {
            if (who < 3) Writer w(who, p, {}, b, {}, std_map());
            else {
                spew(p, text_block('A', 1) + enc_bin(b));
                if (who == 3) sedaman::ISEGY r(p);
                else if (who == 4) { Bin g = b; Bin f = b; f.format_code = 3; spew(p, text_block('A', 1) + enc_bin(f)); sedaman::ISEGY r(p, g); }
                else sedaman::ISEGYSorted1D r(p, "FFID");
            }
        } catch (std::exception&) { got = false; }
        if (want != got) c.fail(fmt("user %d: format code %d: %s", who, code, got ? "accepted" : "refused"));
        Hash h;
        h << who << code << got;
        c.state(h.h);
    }
    static vector<uint32_t> const marks = { 0, 0x01020304, 0x04030201, 1, 0x02010403, 0x03040102, 0xffffffff, 0x01020300, 0x00020304, 0x04030200, 0x04030202, 0x80000000, 0x01010304, 0x05030201 };
    if (blk == 0) for (uint32_t e : marks) {
        Bin b = {};
        b.format_code = 3;
        b.samp_per_tr = 1;
        b.endianness = (int32_t)e;
        bool want = e == 0 || e == (uint32_t)LE || e == (uint32_t)BE, got = true;
        string p = c.path("w.sgy");
        c.step();
        try {
            if (who < 3) Writer w(who, p, {}, b, {}, std_map());
            else {
                string s(400, 0);
                put(s, 24, 2, 3, e == (uint32_t)LE);
                put(s, 20, 2, 1, e == (uint32_t)LE);
                memcpy(&s[96], &e, 4);
                spew(p, text_block('A', 1) + s);
                if (who == 3) sedaman::ISEGY r(p);
                else if (who == 4) { Bin g = b; g.endianness = 0; sedaman::ISEGY r(p, g); }
                else sedaman::ISEGYSorted1D r(p, "FFID");
            }
        } catch (std::exception&) { got = false; }
        if (want != got) c.fail(fmt("user %d: byte order mark %08x: %s", who, e, got ? "accepted" : "refused"));
        Hash h;
        h << who << e << got << 7;
        c.state(h.h);
    }
}
// ---- sequences of good and bad traces
struct Kind { char const* name; int smp; int64_t num; int si; bool no_num, no_int; }; // smp: samples held
static vector<Kind> const& kinds()
{
    static vector<Kind> const k = {
        { "ok", 3, 3, 1000, false, false }, { "long", 4, 3, 1000, false, false }, { "short", 1, 3, 1000, false, false },
        { "no SAMP_NUM", 3, 0, 1000, true, false }, { "no SAMP_INT", 3, 3, 0, false, true }, { "small", 2, 2, 2000, false, false },
        { "negative", 0, -1, 1000, false, false }, { "zero interval", 3, 3, 0, false, false }, { "long by far", 5000, 3, 1000, false, false },
        { "empty", 0, 0, 1000, false, false }, { "big interval", 3, 3, 40000, false, false }, { "many declared", 3, 32768, 1000, false, false },
        { "longer", 5, 5, 1000, false, false } };
    return k;
}
static void sequences(Ctx& c)
{
    int rev = c.pick(3);
    int mode = rev == 0 ? c.of({ 0, 2 }) : c.pick(3); // 0 given, fixed; 1 given, variable; 2 no header given
    int code = c.of({ 3, 1, 6 });
    int add = rev == 2 && mode != 2 ? c.pick(2) : 0;
    int n_trail = rev == 2 ? c.pick(2) : 0;
    int n_text = rev ? 1 + c.pick(2) : 1;
    if (mode == 2) code = rev == 0 ? 1 : 5;
    int n = c.thorough() ? 4 : 3;
    vector<int> ks;
    for (int i = 0; i < n; ++i) { ks.push_back(c.pick((int)kinds().size())); if (i == 0) c.shard(); }
    if (mode == 2 && c.choices_[2].v) return; // format does not vary without a header
    HMap m { { "SEG00000", { { 0, { "N", VT::int32_t } }, { 114, { "SAMP_NUM", VT::uint16_t } }, { 116, { "SAMP_INT", VT::uint16_t } } } } };
    if (add) m.push_back({ "SEG00001", { { 8, { "A", VT::ieee_double } } } });
    Bin b = {};
    if (mode != 2) {
        b.format_code = (int16_t)code;
        b.samp_per_tr = 3;
        b.samp_int = 500;
        b.fixed_tr_length = mode == 0 && rev ? 1 : 0;
        if (rev == 2) { b.SEGY_rev_major_ver = 2; b.max_num_add_tr_headers = add; }
    }
    MFile f;
    for (int i = 0; i < n_text; ++i) f.text.push_back(text_block('A', i));
    for (int i = 0; i < n_trail; ++i) f.trailer.push_back(text_block('a', i));
    f.map = m;
    f.bin = derived_bin(rev, b, n_text, n_trail);
    string p = c.path("f.sgy"), log;
    {
        Writer w(rev, p, f.text, b, f.trailer, m);
        int64_t declared = mode == 2 ? -1 : 3;
        for (int i = 0; i < n; ++i) {
            Kind const& k = kinds()[ks[i]];
            MTrace t;
            t.hdr["N"] = (int64_t)(i + 1);
            if (add) t.hdr["A"] = 0.5 + i;
            if (!k.no_num) t.hdr["SAMP_NUM"] = k.num;
            if (!k.no_int) t.hdr["SAMP_INT"] = (int64_t)k.si;
            for (int s = 0; s < k.smp; ++s) t.smp.push_back(1 + s + 10 * i);
            bool first = mode == 2 && f.tr.empty();
            bool ok;
            if (mode == 0) ok = k.smp <= declared;
            else if (mode == 1) ok = !k.no_num && k.num >= 0 && k.smp <= k.num;
            else if (rev == 0) ok = first ? !k.no_num && k.num >= 0 && k.num <= 32767 && !k.no_int && k.si > 0 && k.si <= 32767 && k.smp <= k.num : k.smp <= declared;
            else ok = !k.no_num && k.num >= 0 && k.smp <= k.num && (!first || (k.num <= 32767 && !k.no_int && k.si > 0 && k.si <= 32767));
            log += string(k.name) + "; ";
            bool got = true;
            c.step();
            try { w.write(t); } catch (std::exception&) { got = false; }
            if (got != ok) c.fail(fmt("rev %d mode %d: %s: the last one was %s", rev, mode, log.c_str(), got ? "accepted" : "refused"));
            if (ok) {
                if (first) {
                    f.bin.samp_per_tr = (int16_t)k.num;
                    f.bin.samp_int = (int16_t)k.si;
                    declared = k.num;
                }
                f.tr.push_back(t);
            }
        }
    }
    string d = diff(f.bytes(), slurp(p));
    if (!d.empty()) c.fail(fmt("rev %d mode %d: %s: file: ", rev, mode, log.c_str()) + d);
    check_read(c, p, f);
    Hash h;
    h << f.bytes();
    c.state(h.h);
    c.note(log);
}
int main(int argc, char** argv)
{
    return explore_main(argc, argv, { { "two_fields", two_fields }, { "three_fields", three_fields }, { "names_counts", names_counts }, { "codes", codes }, { "sequences", sequences } });
}
