// C04: text headers, extended text headers and trailer stanzas are kept.
#include "segy_layouts.hpp"
using namespace segy;

// ---- writers: every combination of block counts and trace histories, all bytes compared, then read back
static void writers(Ctx& c)
{
    int rev = c.pick(3);
    int32_t e = c.of({ 0, LE });
    int mode = c.pick(rev == 0 ? 2 : 3); // no header given / variable or fixed
    int n_ext = rev ? c.pick(5) : 0, n_trail = rev == 2 ? c.pick(4) : 0;
    int add = rev == 2 && mode ? c.pick(3) : 0;
    c.shard();
    int n = c.pick(4);
    int special = c.pick(3); // contents: plain, an end stanza in the middle, all byte values
    MFile f;
    f.text = { text_block('A', 0) };
    for (int i = 0; i < n_ext; ++i) f.text.push_back(text_block('B', i));
    for (int i = 0; i < n_trail; ++i) f.trailer.push_back(text_block('a', i));
    if (special == 1) {
        if (n_ext) f.text[1] = end_stanza(1);
        if (n_trail) f.trailer[0] = end_stanza(2);
    }
    if (special == 2) {
        auto all = [](string& s, int k) { for (int i = 0; i < 3200; ++i) s[i] = (char)(i * 37 + k); };
        int k = 0;
        for (auto& s : f.text) all(s, k++);
        for (auto& s : f.trailer) all(s, k++);
    }
    Bin given = {};
    if (mode || e) {
        given.endianness = e;
        given.format_code = 3;
        given.samp_per_tr = 2;
        given.samp_int = 1000;
        given.fixed_tr_length = mode == 2 ? 1 : 0;
        given.SEGY_rev_major_ver = (uint8_t)rev;
        given.max_num_add_tr_headers = add;
    }
    bool derive = default_bin(rev, given);
    f.bin = derived_bin(rev, given, f.text.size(), f.trailer.size());
    Layout l {};
    l.add = add;
    f.map = layout_map(l);
    string p = c.path("f.sgy");
    {
        Writer w(rev, p, f.text, given, f.trailer, f.map);
        c.step();
        for (int i = 0; i < n; ++i) {
            MTrace t;
            int k = rev && !f.bin.fixed_tr_length ? 2 - i % 2 : 2;
            t.hdr["SAMP_NUM"] = (int64_t)k;
            t.hdr["SAMP_INT"] = (int64_t)1000;
            t.hdr["KEY"] = (int64_t)i;
            for (int q = 0; q < k; ++q) t.smp.push_back(q + 1);
            if (i == 0 && derive) { f.bin.samp_per_tr = 2; f.bin.samp_int = 1000; }
            f.tr.push_back(t);
            w.write(t);
            c.step();
        }
    }
    c.note(fmt("rev %d ext %d trailer %d traces %d", rev, n_ext, n_trail, n));
    string d = diff(f.bytes(), slurp(p));
    if (!d.empty()) c.fail("written file: " + d);
    check_read(c, p, f);
    Hash h;
    h << rev << e << mode << n_ext << n_trail << add << n << special;
    c.state(h.h);
}

// ---- reader: counted or terminated blocks around any trace history
static void readers(Ctx& c)
{
    Layout l = pick_layout(c, { 3, 7 }, { LE, BE }, c.thorough());
    c.shard();
    int n = c.pick(4);
    if (l.trail_term && n == 0) return; // nothing marks the end of trace data then
    vector<int> lens;
    for (int i = 0; i < n; ++i) lens.push_back(c.of({ 0, 3, 1 }));
    MFile f = build(l, 2, lens);
    string p = c.path("f.sgy");
    spew(p, f.bytes());
    c.note(fmt("rev %d ext %d%s trailer %d%s add %d fixed %d traces %d", l.rev, l.n_ext, l.ext_term ? "T" : "", l.n_trail, l.trail_term ? "T" : "", l.add, l.fixed, n));
    check_read(c, p, f);
    Hash h;
    h << f.bytes();
    c.state(h.h);
}

// sizes other than 3200 are refused in every position
static void sizes(Ctx& c)
{
    int rev = c.pick(3);
    int n_text = rev ? 1 + c.pick(3) : 1, n_trail = rev == 2 ? c.pick(3) : 0;
    int bad = c.pick(n_text + n_trail);
    int size = c.of({ 0, 1, 80, 3199, 3200, 3201, 3600, 6400 });
    c.shard();
    vector<string> text, trail;
    for (int i = 0; i < n_text; ++i) text.push_back(text_block('A', i));
    for (int i = 0; i < n_trail; ++i) trail.push_back(text_block('A', i));
    (bad < n_text ? text[bad] : trail[bad - n_text]) = string(size, 'q');
    bool want = size == 3200 || (rev == 0 && size == 0);
    bool got = true;
    Bin b = {};
    b.samp_per_tr = 1;
    b.format_code = 8;
    try {
        Writer w(rev, c.path("f.sgy"), text, b, trail, std_map());
        c.step();
    } catch (std::exception&) {
        got = false;
    }
    if (want != got) c.fail(fmt("rev %d: block %d of size %d was %s", rev, bad, size, got ? "accepted" : "refused"));
    Hash h;
    h << rev << n_text << n_trail << bad << size;
    c.state(h.h);
}

// code page 037 for the characters of the default header
static int cp037(int ch)
{
    if (ch >= 'A' && ch <= 'I') return 0xc1 + ch - 'A';
    if (ch >= 'J' && ch <= 'R') return 0xd1 + ch - 'J';
    if (ch >= 'S' && ch <= 'Z') return 0xe2 + ch - 'S';
    if (ch >= 'a' && ch <= 'i') return 0x81 + ch - 'a';
    if (ch >= 'j' && ch <= 'r') return 0x91 + ch - 'j';
    if (ch >= 's' && ch <= 'z') return 0xa2 + ch - 's';
    if (ch >= '0' && ch <= '9') return 0xf0 + ch - '0';
    switch (ch) {
    case ' ': return 0x40;
    case '.': return 0x4b;
    case '-': return 0x60;
    case '/': return 0x61;
    case ':': return 0x7a;
    case '_': return 0x6d;
    default: return -1;
    }
}
// no text given: a complete standard header
static void default_header(Ctx& c)
{
    int rev = c.pick(3);
    int ntr = c.pick(3);
    bool given = c.flag();
    c.shard();
    Bin b = {};
    if (given) { b.samp_per_tr = 1; b.samp_int = 1000; b.format_code = 8; }
    string p = c.path("f.sgy");
    {
        Writer w(rev, p, {}, b, {}, std_map());
        for (int i = 0; i < ntr; ++i) {
            MTrace t;
            t.hdr["SAMP_NUM"] = (int64_t)1;
            t.hdr["SAMP_INT"] = (int64_t)1000;
            t.smp = { 4 };
            w.write(t);
            c.step();
        }
    }
    string s = slurp(p).substr(0, 3200);
    c.require(s.size() == 3200, "default text header is incomplete");
    string rv = rev == 0 ? "            " : rev == 1 ? "SEG Y REV1  " : "SEG-Y_REV2.0";
    for (int line = 0; line < 40; ++line) {
        string want = fmt("C%2d ", line + 1);
        if (line == 38) want += rv;
        if (line == 39) want += "END TEXTUAL HEADER";
        if (line == 0) want += "CLIENT                        COMPANY                       CREW NO";
        for (size_t i = 0; i < want.size(); ++i) {
            int w = rev == 0 ? cp037(want[i]) : want[i];
            if ((unsigned char)s[line * 80 + i] != w) c.fail(fmt("default text header of revision %d: line %d column %zu is %02x expected %02x", rev, line + 1, i + 1, (unsigned char)s[line * 80 + i], w));
        }
    }
    string def(CommonSEGY::default_text_header);
    c.require(def.size() == 3200, "default_text_header is not 3200 characters");
    for (int i = 0; i < 3200; ++i) {
        if (i >= 38 * 80 + 4 && i < 38 * 80 + 16) continue;
        int w = rev == 0 ? cp037(def[i]) : def[i];
        if ((unsigned char)s[i] != w) c.fail(fmt("default text header of revision %d: character %d is %02x expected %02x", rev, i, (unsigned char)s[i], w));
    }
    sedaman::ISEGY r(p);
    c.require(r.text_headers().size() == 1 && r.text_headers()[0] == s, "default text header is read differently");
    for (int i = 0; i < ntr; ++i) r.read_trace();
    c.require(!r.has_trace(), "trace remains");
    c.state(s);
}

// a block ends the list when it starts with the end mark, and only then
static void marks(Ctx& c)
{
    static string const mark = "((SEG: EndText))";
    vector<string> const looks = [] {
        vector<string> v;
        for (size_t off : { 1, 16, 80, 3183, 3184 }) { string s = text_block('B', 1); s.replace(off, 16, mark); v.push_back(s); }
        for (size_t cut = 0; cut < 16; ++cut) { string s = text_block('B', 2); string m = mark; m[cut] = (char)(m[cut] ^ 0x20); s.replace(0, 16, m); v.push_back(s); }
        for (size_t cut : { 1, 8, 15 }) { string s = text_block('B', 3); s.replace(0, cut, mark.substr(0, cut)); v.push_back(s); }
        v.push_back(string(3200, 0));
        string s(3200, 0); s.replace(1, 16, mark); v.push_back(s);
        return v;
    }();
    bool in_trailer = c.flag(), counted = c.flag();
    int32_t e = c.of({ 0, LE, BE });
    int look = c.pick((int)looks.size() + 1);
    int where = c.pick(3), n = 1 + c.pick(2), fill = c.pick(3);
    bool fixed = c.flag();
    c.shard();
    Layout l {};
    l.rev = in_trailer ? 2 : 1 + c.pick(2); l.endian = e; l.code = 8; l.fixed = fixed; l.gap = -1;
    (in_trailer ? l.n_trail : l.n_ext) = 4;
    (in_trailer ? l.trail_term : l.ext_term) = !counted;
    MFile f = build(l, 2, vector<int>(n, 2));
    auto& list = in_trailer ? f.trailer : f.text;
    size_t base = in_trailer ? 0 : 1;
    // the true mark in the middle of a counted list is a block like any other
    if (look == (int)looks.size()) { if (!counted) return; list[base + where] = end_stanza(3); }
    else list[base + where] = looks[look];
    if (!in_trailer) f.text[0].replace(0, 16, mark); // the first text header ends nothing
    if (!counted) list.back() = mark + string(3184, fill == 0 ? 0 : fill == 1 ? ' ' : (char)0xff);
    string p = c.path("f.sgy");
    spew(p, f.bytes());
    c.note(fmt("%s look %d at %d", in_trailer ? "trailer" : "text", look, where));
    check_read(c, p, f);
    Hash h;
    h << f.bytes();
    c.state(h.h);
}
int main(int argc, char** argv)
{
    return explore_main(argc, argv, { { "writers", writers }, { "readers", readers }, { "sizes", sizes }, { "default_header", default_header }, { "marks", marks } });
}
