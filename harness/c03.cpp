// C03: SEG-Y binary header is written and read faithfully.
#include "segy_model.hpp"
using namespace segy;

static HMap const& small_map()
{
    static HMap const m = { { "SEG00000", { { 114, { "SAMP_NUM", VT::uint16_t } }, { 116, { "SAMP_INT", VT::int16_t } } } } };
    return m;
}
static vector<uint64_t> alphabet(BF const& f)
{
    if (f.real) { vector<uint64_t> r; for (double d : { 0.0, 1.0, -1.0, 0.1, 4.9e-324, 1.7976931348623157e308, 2000.5 }) r.push_back(d2u(d)); return r; }
    uint64_t all = f.width == 8 ? ~0ull : (1ull << (8 * f.width)) - 1;
    return { 0, 1, 2, all >> 1, (all >> 1) + 1, all, all - 1, 0x0102030405060708ull & all, 0x80 & all, 0xff & all };
}
// fields whose value changes the layout of the file or is derived are excluded from the free ones
static bool free_field(BF const& f)
{
    string n = f.name;
    return n != "format_code" && n != "endianness" && n != "ext_text_headers_num" && n != "max_num_add_tr_headers"
        && n != "num_of_trailer_stanza" && n != "byte_off_of_first_tr" && n != "SEGY_rev_major_ver" && n != "SEGY_rev_minor_ver"
        && n != "fixed_tr_length" && n != "ext_samp_per_tr" && n != "samp_per_tr";
}
static Bin base(int rev, int32_t e)
{
    Bin b = {};
    b.endianness = e;
    b.format_code = 2;
    b.samp_per_tr = 3;
    b.fixed_tr_length = rev ? 1 : 0;
    if (rev == 2) b.SEGY_rev_major_ver = 2;
    return b;
}
static void roundtrip(Ctx& c, int rev, Bin const& given, int ntr, int ntext = 1, int ntrail = 0)
{
    if (default_bin(rev, given)) return; // counts as no header given: from_first_trace
    MFile f;
    for (int i = 0; i < ntext; ++i) f.text.push_back(text_block('A', i));
    for (int i = 0; i < ntrail; ++i) f.trailer.push_back(text_block('a', i));
    f.bin = derived_bin(rev, given, ntext, ntrail);
    f.map = small_map();
    string p = c.path("f.sgy");
    {
        Writer w(rev, p, f.text, given, f.trailer, f.map);
        for (int i = 0; i < ntr; ++i) {
            MTrace t;
            t.hdr["SAMP_NUM"] = (int64_t)declared_samples(f.bin);
            t.hdr["SAMP_INT"] = (int64_t)500;
            for (int k = 0; k < declared_samples(f.bin); ++k) t.smp.push_back(i * 10 + k);
            f.tr.push_back(t);
            w.write(t);
            c.step();
        }
    }
    string d = diff(f.bytes(), slurp(p));
    if (!d.empty()) c.fail("written file: " + d);
    check_read(c, p, f);
    d = diff_bin(dec_bin(enc_bin(f.bin)), sedaman::ISEGY::read_binary_header(p));
    if (!d.empty()) c.fail("read_binary_header: " + d);
    c.step();
    Hash h;
    h << rev << ntr << ntext << ntrail << enc_bin(f.bin);
    c.state(h.h);
}

// one field at a time
static void fields(Ctx& c)
{
    int rev = c.pick(3);
    int32_t e = c.of({ 0, LE, BE });
    vector<BF const*> ff;
    for (auto& f : bin_fields()) if (free_field(f) && (rev == 2 || !f.rev2)) ff.push_back(&f);
    BF const* f = ff[c.pick((int)ff.size())];
    auto al = alphabet(*f);
    c.shard();
    uint64_t v = al[c.pick((int)al.size())];
    Bin b = base(rev, e);
    f->set(b, v);
    c.note(fmt("rev %d %s=%llx", rev, f->name, (unsigned long long)v));
    roundtrip(c, rev, b, c.pick(2));
}
// every pair of fields, both with an extreme value, and all fields together with distinct values
static void together(Ctx& c)
{
    int rev = c.pick(3);
    int32_t e = c.of({ 0, LE, BE });
    int mode = c.pick(5);
    c.shard();
    Bin b = base(rev, e);
    int k = 0;
    vector<BF const*> ff;
    for (auto& f : bin_fields()) if (free_field(f) && (rev == 2 || !f.rev2)) ff.push_back(&f);
    if (mode == 4) {
        int i = c.pick((int)ff.size()), j = c.pick((int)ff.size());
        for (int q : { i, j }) ff[q]->set(b, ff[q]->real ? d2u(-1.0 / 3) : ~0ull);
    } else
        for (auto* f : ff) {
            ++k;
            uint64_t all = f->width == 8 ? ~0ull : (1ull << (8 * f->width)) - 1;
            uint64_t v = f->real ? d2u(k * 1.25) : mode == 0 ? k : mode == 1 ? all - k : mode == 2 ? (0x1111111111111111ull * (k % 15 + 1)) & all : (k & 1 ? all : 0);
            f->set(b, v);
        }
    roundtrip(c, rev, b, 1);
}
// fields that the writer uses or derives itself
static void derived(Ctx& c)
{
    int rev = c.pick(3);
    int32_t e = c.of({ 0, LE, BE });
    int code = c.of({ 0, 1, 2, 3, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16 });
    c.shard();
    Bin b = base(rev, e);
    b.format_code = code;
    int which = c.pick(8);
    int ntext = rev ? 1 + c.pick(3) : 1, ntrail = rev == 2 ? c.pick(3) : 0;
    if (which == 1) b.samp_per_tr = 0;
    if (which == 2) { b.samp_per_tr = 1; b.ext_samp_per_tr = 4; }
    if (which == 3 && rev) b.fixed_tr_length = 0;
    if (which == 4 && rev) b.ext_text_headers_num = 7;
    if (which == 5 && rev == 2) b.num_of_trailer_stanza = 5;
    if (which == 6 && rev == 2) b.byte_off_of_first_tr = 123456;
    if (which == 7 && rev) { b.SEGY_rev_major_ver = rev == 1 ? c.of({ 0, 1, 2 }) : c.of({ 0, 1, 2, 3 }); b.SEGY_rev_minor_ver = c.of({ 0, 1, 255 }); }
    roundtrip(c, rev, b, c.pick(3), ntext, ntrail);
}
// no header given: count and interval of the first trace are stored
static void from_first_trace(Ctx& c)
{
    int rev = c.pick(3);
    int n = c.of({ 0, 1, 2, 127, 128, 255, 256, 1000, 32767 });
    int si = c.of({ 1, 2, 250, 2000, 32767 });
    bool real = c.flag(), with_code = c.flag();
    int ntext = rev ? 1 + c.pick(3) : 1, ntr = c.pick(4), ntrail = rev == 2 ? c.pick(2) : 0;
    c.shard();
    MFile f;
    for (int i = 0; i < ntext; ++i) f.text.push_back(text_block('A', i));
    for (int i = 0; i < ntrail; ++i) f.trailer.push_back(text_block('a', i));
    Bin given = {};
    if (with_code) given.format_code = rev ? 5 : 1;
    f.bin = derived_bin(rev, given, ntext, ntrail);
    f.map = small_map();
    string p = c.path("f.sgy");
    {
        Writer w(rev, p, f.text, given, f.trailer, f.map);
        for (int i = 0; i < ntr; ++i) {
            MTrace t;
            t.hdr["SAMP_NUM"] = (int64_t)n;
            int64_t s = i ? si + i - 1 : si;
            t.hdr["SAMP_INT"] = real ? Value((double)s) : Value(s);
            for (int k = 0; k < n; ++k) t.smp.push_back(1 + k % 50 + i);
            if (i == 0) { f.bin.samp_per_tr = (int16_t)n; f.bin.samp_int = (int16_t)si; }
            w.write(t);
            c.step();
            f.tr.push_back(t);
        }
    }
    string d = diff(f.bytes(), slurp(p));
    if (!d.empty()) c.fail("written file: " + d);
    check_read(c, p, f);
    c.state(f.bytes().substr(0, 5000));
}
// reader: any file header x any override: the override replaces everything but the byte order
static void override_hdr(Ctx& c)
{
    int32_t e = c.of({ 0, LE, BE });
    int rev = c.pick(3);
    int what = c.pick(9);
    c.shard();
    MFile f;
    f.text = { text_block('A', 0), text_block('A', 1) };
    Bin b = base(rev, e);
    b.ext_text_headers_num = 1;
    b.SEGY_rev_major_ver = (uint8_t)rev;
    b.format_code = 3;
    f.bin = b;
    f.map = { { "SEG00000", { { 114, { "SAMP_NUM", VT::int16_t } }, { 0, { "X", VT::int32_t } } } } };
    for (int k = 0; k < 3; ++k) {
        MTrace t;
        t.hdr["SAMP_NUM"] = (int64_t)3;
        t.hdr["X"] = (int64_t)k;
        t.smp = { 1.0 + k, 2, -3 };
        f.tr.push_back(t);
    }
    string good = f.bytes(), bytes = good;
    bool le = is_le(e);
    // damage the field in the file that the override then repairs
    if (what == 0) put(bytes, 3200 + 24, 2, 99, le);                          // format
    if (what == 1) put(bytes, 3200 + 20, 2, 1, le);                           // samples
    if (what == 2) put(bytes, 3200 + 304, 2, 0, le);                          // extended text headers
    if (what == 3) put(bytes, 3200 + 302, 2, 0, le);                          // fixed flag
    if (what == 4) { put(bytes, 3200 + 300, 1, 2, le); put(bytes, 3200 + 306, 4, 3, le); } // additional headers
    if (what == 5) { put(bytes, 3200 + 300, 1, 2, le); put(bytes, 3200 + 320, 8, 3600, le); }
    if (what == 6) { put(bytes, 3200 + 300, 1, 2, le); put(bytes, 3200 + 328, 4, 1, le); }
    if (what == 7) put(bytes, 3200 + 68, 4, 77777, le);                       // extended samples
    Bin over = f.bin;
    if (c.flag()) over.endianness = c.of({ 0, LE, BE, 12345 });
    string p = c.path("f.sgy");
    spew(p, bytes);
    Bin want = over;
    want.endianness = f.bin.endianness;
    if (what == 8) { over.job_id = want.job_id = 31337; over.ext_samp_int = want.ext_samp_int = 0.25; over.time_basis_code = want.time_basis_code = 4; }
    sedaman::ISEGY r(p, over, f.map);
    c.step();
    string d = diff_bin(want, r.binary_header());
    if (d.empty()) d = diff_text(f.text, r.text_headers(), "text headers");
    for (size_t k = 0; d.empty() && k < 3; ++k) {
        c.require(r.has_trace(), "override: trace missing");
        d = diff_trace(f.expected(k), r.read_trace());
        c.step();
    }
    if (!d.empty()) c.fail("override: " + d);
    c.require(!r.has_trace(), "override: trace remains");
    Hash h;
    h << e << rev << what << over.endianness;
    c.state(h.h);
}
// arbitrary header bytes are decoded at their position (reader side, one byte at a time)
static void read_bytes(Ctx& c)
{
    int32_t e = c.of({ 0, LE, BE });
    int major = c.of({ 0, 1, 2 });
    int off = c.pick(400);
    c.shard();
    string t(3200, 'x'), b(400, 0);
    bool le = is_le(e);
    if (e) put(b, 96, 4, 0x01020304, le);
    b[300] = (char)major;
    put(b, 302, 2, 1, le);
    put(b, 24, 2, 8, le);
    put(b, 20, 2, 0, le);
    // bytes that steer the reader are left alone
    if ((off >= 96 && off < 100) || off == 24 || off == 25 || (off >= 68 && off < 72) || off == 20 || off == 21 || off == 300 || (off >= 304 && off < 310) || off >= 320) {
        if (!(off >= 332)) return;
    }
    for (int v : { 0x01, 0x7f, 0x80, 0xff }) {
        b[off] = (char)v;
        string p = c.path("f.sgy");
        spew(p, t + b);
        sedaman::ISEGY r(p);
        c.step();
        string d = diff_bin(dec_bin(b), r.binary_header());
        if (!d.empty()) c.fail(fmt("header byte %d = %02x: ", off, v) + d);
        c.require(!r.has_trace(), "trace in a file without traces");
        c.state(b);
    }
}

int main(int argc, char** argv)
{
    return explore_main(argc, argv, { { "fields", fields }, { "together", together }, { "derived", derived }, { "from_first_trace", from_first_trace },
        { "override_hdr", override_hdr }, { "read_bytes", read_bytes } });
}
