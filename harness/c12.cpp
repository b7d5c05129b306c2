// C12: SEG-D general and channel-set headers (revisions 0-2) are decoded field by field.
#include "segd_model.hpp"
using namespace segd;

static void run(Ctx& c, Record const& m)
{
    string p = c.path("f.sgd"), b = m.bytes();
    spew(p, b);
    c.step();
    string d = diff_file({ m }, p, {}, &c);
    if (!d.empty()) c.fail(d);
    Hash h;
    h << b;
    c.state(h.h);
}
static Record base(int rev, int add = 0, int sets = 1)
{
    Shape s;
    s.rev = rev; s.add = add; s.sets = sets;
    return build(s);
}
// half bytes of the first general header that do not change the layout
static bool structural1(int i) { return i >= 4 && i < 8 || i == 22 || i >= 54; }

// every digit of every decimal field, every value of every binary byte, over two backgrounds
static void gh1(Ctx& c)
{
    int rev = c.of({ 0, 1, 2 });
    int i = c.pick(64);
    int bg = c.pick(3);
    c.shard();
    if (structural1(i)) return;
    Record m = base(rev);
    bool bin = i == 44 || i == 45 || i >= 46 && i < 51;
    for (int k = 0; k < 64; ++k) {
        if (structural1(k)) continue;
        bool b = k >= 44 && k < 51;
        if (bg == 1) set_nib(m.gh1, k, b ? 15 : 9);
        if (bg == 2) set_nib(m.gh1, k, (k * 7 + 3) % 10);
    }
    int v = c.pick(bin ? 16 : 10);
    set_nib(m.gh1, i, v);
    c.note(fmt("revision %d, half byte %d of general header 1 is %d", rev, i, v));
    run(c, m);
}
// general header 2 and further general headers: every value of every byte over backgrounds
static void gh2(Ctx& c)
{
    int rev = c.of({ 1, 2 });
    int i = c.pick(32);
    int bg = c.pick(3);
    c.shard();
    int v = c.pick(256);
    if (i == 10) return; // revision
    Record m = base(rev, 1);
    for (int k = 0; k < 32; ++k)
        if (k != 10) m.gh2[k] = bg == 0 ? 0 : bg == 1 ? 0xff : k * 29 + 5;
    set_be(m.gh2, 12, 2, 0);
    m.gh2[i] = v;
    m.trailer = be(m.gh2, 12, 2);
    c.note(fmt("revision %d, byte %d of general header 2 is %d", rev, i, v));
    run(c, m);
}
static void ghn(Ctx& c)
{
    int rev = c.of({ 1, 2 });
    int i = c.pick(32);
    int bg = c.pick(3);
    c.shard();
    int v = c.pick(256);
    Record m = base(rev, 1);
    for (int k = 0; k < 32; ++k) m.add[0][k] = bg == 0 ? 0 : bg == 1 ? 0xff : k * 29 + 5;
    m.add[0][i] = v;
    c.note(fmt("revision %d, byte %d of general header 3 is %d", rev, i, v));
    run(c, m);
}
// source line and point: all boundary integers and fractions
static void lines(Ctx& c)
{
    int64_t line = c.of<int64_t>({ 0, 1, 255, 256, 65535, 65536, 8388607, -1, -2, -255, -256, -65536, -8388608 });
    int frac = c.of({ 0, 1, 0x7fff, 0x8000, 0xffff, 0x100 });
    c.shard();
    int64_t point = c.of<int64_t>({ 0, 1, 8388607, -1, -8388608, 4321 });
    int frac2 = c.of({ 0, 1, 0x8000, 0xffff });
    Record m = base(2, 2);
    for (int k = 0; k < 2; ++k) {
        set_be(m.add[k], 3, 3, k ? point : line); set_be(m.add[k], 6, 2, k ? frac2 : frac);
        set_be(m.add[k], 8, 3, k ? line : point); set_be(m.add[k], 11, 2, k ? frac : frac2);
    }
    run(c, m);
}
// number and order of further general headers
static void ghn_count(Ctx& c)
{
    int rev = c.of({ 1, 2 });
    int n = c.pick(15);
    int order = c.pick(3);
    int scans = c.of({ 1, 2 });
    c.shard();
    Record m = base(rev, n);
    if (scans == 2) { Shape s; s.rev = rev; s.add = n; s.scans = 2; s.extended = 1; s.external = 1; m = build(s); }
    for (int i = 0; i < n; ++i) {
        int num = order == 0 ? 3 + i : order == 1 ? 3 + n - 1 - i : 3 + (i * 7 + 3) % 15;
        m.add[i][18] = num;
    }
    c.note(fmt("revision %d, %d further general headers, order %d", rev, n, order));
    run(c, m);
}
// channel set headers: every digit / value of every half byte
static void set_fields(Ctx& c)
{
    int rev = c.of({ 0, 1, 2 });
    int i = c.pick(64);
    int bg = c.pick(3);
    int which = c.pick(2);
    c.shard();
    auto decimal = [](int k) { return k < 4 || k >= 16 && k < 20 || k >= 24 && k < 52; };
    // numbers of the set and channels, subscans and descale are varied elsewhere or here one at a time
    auto fixed = [](int k) { return k < 4 || k >= 12 && k < 20 || k == 22; };
    int v = c.pick(decimal(i) ? 10 : 16);
    Record m = base(rev, 0, 2);
    string& s = m.sets[0][which];
    for (int k = 0; k < 64; ++k)
        if (!fixed(k)) set_nib(s, k, bg == 0 ? 0 : bg == 1 ? (decimal(k) ? 9 : 15) : (k * 7 + 3) % 10);
    if (i < 16 || i > 19) set_nib(s, i, v);
    if (i >= 12 && i < 16) { // descale
        m.tr[which].bits = { 0 };
    }
    if (i == 22) m.tr[which].bits.resize(1 << v, 0x3f800000);
    if (i >= 16 && i < 20) {
        if (i == 16 && v > 2) return; // up to 2000 channels
        set_nib(s, 19, 1);
        set_nib(s, i, v);
        MTrace t = m.tr[which];
        size_t n = bcd(s, 16, 4);
        m.tr.erase(m.tr.begin() + which);
        for (size_t k = 0; k < n; ++k) { t.bits = { some_bits(8058, k) }; m.tr.insert(m.tr.begin() + which + k, t); }
    }
    c.note(fmt("revision %d, half byte %d of channel set %d is %d", rev, i, which, v));
    run(c, m);
}
// all values of the 16-bit fields of channel sets
static void set_words(Ctx& c)
{
    int f = c.pick(4);
    int hi = c.pick(256);
    c.shard();
    int lo = c.pick(c.thorough() ? 256 : 4);
    if (!c.thorough()) lo = lo == 0 ? 0 : lo == 1 ? 1 : lo == 2 ? 128 : 255;
    static int const off[] { 2, 4, 6, 26 };
    Record m = base(2);
    m.sets[0][0][off[f]] = hi;
    m.sets[0][0][off[f] + 1] = lo;
    if (f == 2) m.tr[0].bits = { 0 };
    run(c, m);
}
// numbers of scan types, channel sets, skew, extended and external blocks and further headers
static void shapes(Ctx& c)
{
    Shape s;
    s.rev = c.of({ 0, 1, 2 });
    s.scans = 1 + c.pick(3);
    s.sets = 1 + c.pick(3);
    s.skew = c.pick(3);
    s.extended = c.pick(3);
    c.shard();
    s.external = c.pick(3);
    s.add = s.rev ? c.pick(3) : 0;
    s.ext_counts = s.rev ? c.flag() : false;
    s.chans = c.pick(c.thorough() ? 3 : 2);
    s.trailer = s.rev ? c.pick(2) : 0;
    c.note(fmt("revision %d, %d scan types x %d sets x %d channels, %d skew, %d extended, %d external, %d further, extended counts %d",
        s.rev, s.scans, s.sets, s.chans, s.skew, s.extended, s.external, s.add, s.ext_counts));
    run(c, build(s));
}
// large counts
static void large(Ctx& c)
{
    Shape s;
    s.rev = c.of({ 1, 2 });
    int what = c.pick(6);
    s.ext_counts = c.flag();
    static vector<int> const n { 9, 10, 11, 15, 16, 19, 20, 98, 99, 100, 101, 165, 166, 255, 256, 257, 300, 1000, 32767, 32768, 65535 };
    int v = c.of(n);
    c.shard();
    if (v > 1000 && what != 1 && what != 2 && what != 5) return;
    if (what == 0) s.sets = v;
    else if (what == 1) s.extended = v;
    else if (what == 2) s.external = v;
    else if (what == 5) s.trailer = v;
    else if (what == 3) { if (v > 99) return; s.skew = v; }
    else { if (v > 99) return; s.scans = v; }
    if (v > 99) s.ext_counts = s.ext_counts; // fix() uses the extended form itself
    c.note(fmt("revision %d, count %d is %d, extended counts %d", s.rev, what, v, s.ext_counts));
    run(c, build(s));
}
// short and extended form of the same count: only the extended one is used when all half bytes are set, and not otherwise
static void mixed_counts(Ctx& c)
{
    Shape s;
    s.rev = c.of({ 1, 2 });
    int mask = c.pick(8);
    int n[3] = { 1 + c.pick(2), c.pick(3), c.pick(3) };
    c.shard();
    int junk = c.of({ 0, 1, 7, 300, 65535 });
    s.sets = n[0]; s.extended = n[1]; s.external = n[2];
    Record m = build(s);
    int const off1[] { 56, 60, 62 }, off2[] { 3, 5, 7 };
    for (int k = 0; k < 3; ++k) {
        if (mask >> k & 1) { set_nib(m.gh1, off1[k], 15); set_nib(m.gh1, off1[k] + 1, 15); set_be(m.gh2, off2[k], 2, n[k]); }
        else { set_bcd(m.gh1, off1[k], 2, n[k]); set_be(m.gh2, off2[k], 2, junk); }
    }
    c.note(fmt("mask of extended counts %d, other extended fields %d", mask, junk));
    run(c, m);
}
// file number and record length in their extended form
static void extended_values(Ctx& c)
{
    int rev = c.of({ 1, 2 });
    int f = c.flag(), l = c.flag();
    int type = c.pick(10);
    uint32_t v = c.of<uint32_t>({ 0, 1, 9999, 10000, 65535, 65536, 0xffffff });
    c.shard();
    Record m = base(rev);
    if (f) for (int k = 0; k < 4; ++k) set_nib(m.gh1, k, 15);
    if (l) for (int k = 51; k < 54; ++k) set_nib(m.gh1, k, 15);
    set_nib(m.gh1, 50, type);
    set_be(m.gh2, 0, 3, v);
    set_be(m.gh2, 14, 3, 0xffffff - v);
    run(c, m);
}
int main(int argc, char** argv)
{
    return explore_main(argc, argv, { { "gh1", gh1 }, { "gh2", gh2 }, { "ghn", ghn }, { "lines", lines }, { "ghn_count", ghn_count },
        { "set_fields", set_fields }, { "set_words", set_words }, { "shapes", shapes }, { "large", large },
        { "mixed_counts", mixed_counts }, { "extended_values", extended_values } });
}
