// C13: SEG-D revision 3 headers are decoded field by field.
#include "segd_model.hpp"
using namespace segd;

static void run(Ctx& c, vector<Record> const& m)
{
    string p = c.path("f.sgd"), b;
    for (auto& r : m) b += r.bytes();
    spew(p, b);
    c.step();
    string d = diff_file(m, p, {}, &c);
    if (!d.empty()) c.fail(d);
    Hash h;
    h << b;
    c.state(h.h);
}
static Record base(int add = 0, int sets = 1)
{
    Shape s;
    s.rev = 3; s.sets = sets; s.add = add;
    return build(s);
}
static string make_block(Block const& b, unsigned seed)
{
    string s = filler(32, seed);
    for (int d : b.digits) set_nib(s, d, nib(s, d) % 10);
    s[31] = b.type;
    return s;
}
static bool structural1(int i) { return i >= 4 && i < 8 || i == 22 || i >= 54; }
static void gh1(Ctx& c)
{
    int i = c.pick(64);
    int bg = c.pick(3);
    c.shard();
    if (structural1(i)) return;
    Record m = base();
    bool bin = i >= 44 && i < 51;
    for (int k = 0; k < 64; ++k) {
        if (structural1(k)) continue;
        bool b = k >= 44 && k < 51;
        if (bg == 1) set_nib(m.gh1, k, b ? 15 : 9);
        if (bg == 2) set_nib(m.gh1, k, (k * 7 + 3) % 10);
    }
    set_nib(m.gh1, i, c.pick(bin ? 16 : 10));
    run(c, { m });
}
// general headers 2 and 3: every value of every byte over backgrounds
static void gh23(Ctx& c)
{
    int h = c.pick(2);
    int i = c.pick(32);
    int bg = c.pick(3);
    c.shard();
    int v = c.pick(256);
    if (h == 0 && i == 10) return;
    Record m = base(1);
    string& g = h ? m.gh3 : m.gh2;
    for (int k = 0; k < 32; ++k)
        if (h || k != 10) g[k] = bg == 0 ? 0 : bg == 1 ? 0xff : k * 29 + 5;
    if (!h) set_be(g, 12, 4, 0);
    g[i] = v;
    if (!h) {
        if (be(g, 12, 4) > 70000) return; // 2 MB of trailer
        m.trailer = be(g, 12, 4);
    }
    c.note(fmt("byte %d of general header %d is %d", i, h + 2, v));
    run(c, { m });
}
// every value of every byte of every block type (all blocks in one record)
static void block_fields(Ctx& c)
{
    int i = c.pick(31);
    int bg = c.pick(3);
    c.shard();
    int v = c.pick(256);
    Record m = base();
    for (auto& b : blocks()) {
        string s(32, bg == 0 ? '\0' : '\xff');
        if (bg == 2) s = filler(32, b.type);
        for (int d : b.digits) set_nib(s, d, nib(s, d) % 10);
        s[i] = v;
        for (int d : b.digits) if (d / 2 == i) set_nib(s, d, nib(s, d) % 10);
        s[31] = b.type;
        m.add.push_back(s);
    }
    m.ext_counts = true;
    m.fix();
    c.note(fmt("byte %d of all blocks is %d", i, v));
    run(c, { m });
}
// every block alone and every ordered pair (triple in the thorough tier), all others absent
static void block_sets(Ctx& c)
{
    int n = blocks().size();
    int k = c.pick(4);
    vector<int> idx;
    if (k > 0) idx.push_back(c.pick(n));
    c.shard();
    if (k > 1) idx.push_back(c.pick(n));
    if (k > 2) { int x = c.pick(c.thorough() ? n : 4); idx.push_back(c.thorough() ? x : (idx[0] + 5 * x + 1) % n); }
    for (size_t i = 0; i < idx.size(); ++i) for (size_t j = 0; j < i; ++j) if (idx[i] == idx[j]) return;
    Record m = base();
    for (size_t i = 0; i < idx.size(); ++i) m.add.push_back(make_block(blocks()[idx[i]], i * 3 + idx[i]));
    m.ext_counts = k % 2;
    m.fix();
    run(c, { m });
}
// number of blocks in short and extended form, known and unknown types mixed
static void block_counts(Ctx& c)
{
    int n = c.pick(24 + 1);
    int ext = c.flag();
    int unknown = c.pick(4); // extra blocks of types the reader does not know
    int rot = c.pick(5);
    c.shard();
    if (!ext && n + unknown + 2 > 14) return;
    Record m = base();
    static int const types[] { 0x00, 0x30, 0x42, 0x70 };
    for (int i = 0; i < n; ++i) {
        m.add.push_back(make_block(blocks()[(i * 5 + rot * 3) % blocks().size()], i));
        if (i < unknown) { string u = filler(32, i); u[31] = types[(i + rot) % 4]; m.add.push_back(u); }
    }
    m.ext_counts = ext;
    m.fix();
    run(c, { m });
}
// every type byte: a type nobody knows is passed over, alone, before, between and after known blocks
static void block_types(Ctx& c)
{
    int type = c.pick(256), place = c.pick(4), rot = c.pick(3);
    c.shard();
    Record m = base();
    Block const* own = nullptr;
    for (auto& b : blocks()) if ((unsigned char)b.type == type) own = &b;
    string u = own ? make_block(*own, 7) : filler(32, type);
    u[31] = (char)type;
    size_t n = blocks().size();
    for (int i = 0; i < 3; ++i) {
        if (i == place) m.add.push_back(u);
        auto& b = blocks()[(rot * 7 + i * 5 + type) % n];
        if (place < 3 && &b != own) m.add.push_back(make_block(b, i));
    }
    if (place == 3) m.add.push_back(u);
    m.ext_counts = rot % 2;
    m.fix();
    run(c, { m });
}
// blocks of one record do not show in another
static void block_records(Ctx& c)
{
    int n = blocks().size();
    int a = c.pick(n + 1), b = c.pick(n + 1);
    c.shard();
    int rev = c.of({ 3, 2, 0 });
    Record m = base(), q = base();
    if (rev != 3) { Shape s; s.rev = rev; s.seed = 3; s.add = rev ? 1 : 0; q = build(s); }
    if (a < n) m.add.push_back(make_block(blocks()[a], 1));
    if (b < n && rev == 3) q.add.push_back(make_block(blocks()[b], 2));
    m.fix(); q.fix();
    run(c, { m, q, m });
}
// source line and point numbers
static void lines(Ctx& c)
{
    int64_t line = c.of<int64_t>({ 0, 1, 255, 256, 65535, 65536, 8388607, -1, -2, -255, -256, -65536, -8388608 });
    int frac = c.of({ 0, 1, 0x7fff, 0x8000, 0xffff, 0x100 });
    c.shard();
    int64_t point = c.of<int64_t>({ 0, 1, 8388607, -1, -8388608, 4321 });
    int frac2 = c.of({ 0, 1, 0x8000, 0xffff });
    Record m = base();
    for (auto& b : blocks()) if (b.type >= 0x15 && b.type <= 0x1f) {
        string s = make_block(b, 1);
        set_be(s, 3, 3, line); set_be(s, 6, 2, frac); set_be(s, 8, 3, point); set_be(s, 11, 2, frac2);
        m.add.push_back(s);
    }
    m.fix();
    run(c, { m });
}
// channel set headers of 96 bytes
static void set_fields(Ctx& c)
{
    int i = c.pick(95);
    int bg = c.pick(3);
    int which = c.pick(2);
    c.shard();
    int v = c.pick(256);
    if (i < 3) {
        if (i == 0 && (v >> 4 > 9 || (v & 15) > 9)) return;
    }
    Record m = base(0, 2);
    string& s = m.sets[0][which];
    auto fixed = [](int k) { return k < 3 || k >= 12 && k < 23; };
    for (int k = 0; k < 95; ++k) if (!fixed(k)) s[k] = bg == 0 ? 0 : bg == 1 ? 0xff : k * 29 + 5;
    s[i] = v;
    if (i >= 12 && i < 16) { // samples
        if (i == 15) m.tr[which].bits.resize(v, 0x3f800000);
        else if (i == 14) m.tr[which].bits.resize(v * 256 + 1, 0x40000000);
        else if (i == 13) { if (v > 2) return; m.tr[which].bits.resize(v * 65536 + 1, 0x40000000); }
        else if (v) return;
    }
    if (i >= 16 && i < 20) m.tr[which].bits = { 0 };
    if (i >= 16 && i < 20 && be(s, 16, 4) < 100) { m.tr[which].bits = { 0x3f800000 }; m.tr[which].scale = ldexp(1.0, (int)be(s, 16, 4)); }
    if (i >= 16 && i < 20 && be(s, 16, 4) > 1000) return; // scale beyond the range of numbers
    if (i >= 20 && i < 23) { // channels
        uint64_t n = be(s, 20, 3);
        if (n > (c.thorough() ? 70000 : 3000)) return;
        MTrace t = m.tr[which];
        m.tr.erase(m.tr.begin() + which);
        for (size_t k = 0; k < n; ++k) { t.bits = { some_bits(8058, k) }; m.tr.insert(m.tr.begin() + which + k, t); }
    }
    c.note(fmt("byte %d of channel set %d is %d", i, which, v));
    run(c, { m });
}
// numbers of everything
static void shapes(Ctx& c)
{
    Shape s;
    s.rev = 3;
    s.scans = 1 + c.pick(3);
    s.sets = 1 + c.pick(3);
    s.skew = c.pick(3);
    s.extended = c.pick(3);
    c.shard();
    s.external = c.pick(3);
    s.add = c.pick(3);
    s.ext_counts = c.flag();
    s.chans = c.pick(c.thorough() ? 3 : 2);
    s.samples = c.of({ 1, 3 });
    s.trailer = c.pick(2);
    run(c, { build(s) });
}
static void large(Ctx& c)
{
    Shape s;
    s.rev = 3;
    int what = c.pick(7);
    s.ext_counts = c.flag();
    static vector<int> const n { 9, 10, 15, 16, 98, 99, 100, 101, 165, 166, 253, 254, 255, 256, 300, 1000, 32767, 32768, 65533, 65535, 65536, 70000 };
    int v = c.of(n);
    c.shard();
    if (v > 1000 && what != 1 && what != 2 && what != 5 && what != 6) return;
    if (what == 0) s.sets = v;
    else if (what == 1) s.extended = v;
    else if (what == 2) s.external = v;
    else if (what == 3) s.skew = v;
    else if (what == 4) { if (v > 99) return; s.scans = v; }
    else if (what == 6) s.trailer = v;
    if (what == 5) { // general header blocks: types unknown to the reader, a known one first and last
        s.ext_counts = true;
        if (v > 65533) return;
        Record m = build(s);
        string u = filler(32, 1);
        u[31] = 0x42;
        m.add.assign(v, u);
        m.add.front() = make_block(blocks()[3], 1);
        m.add.back() = make_block(blocks()[7], 2);
        m.fix();
        run(c, { m });
    } else if (what == 6) run(c, { build(s), build(s) });
    else run(c, { build(s) });
}
static void mixed_counts(Ctx& c)
{
    Shape s;
    s.rev = 3;
    int mask = c.pick(32);
    int n[4] = { 1 + c.pick(2), c.pick(2), c.pick(2), c.pick(2) };
    c.shard();
    uint32_t junk = c.of<uint32_t>({ 0, 1, 7, 300, 65535 });
    s.sets = n[0]; s.skew = n[1]; s.extended = n[2]; s.external = n[3]; s.add = 1;
    Record m = build(s);
    int const off1[] { 56, 58, 60, 62 }, off2[] { 3, 8, 5, 27 }, w[] { 2, 2, 3, 3 };
    for (int k = 0; k < 4; ++k) {
        if (mask >> k & 1) { set_nib(m.gh1, off1[k], 15); set_nib(m.gh1, off1[k] + 1, 15); set_be(m.gh2, off2[k], w[k], n[k]); }
        else { set_bcd(m.gh1, off1[k], 2, n[k]); set_be(m.gh2, off2[k], w[k], junk); }
    }
    if (mask & 16) { set_nib(m.gh1, 22, 15); set_be(m.gh2, 22, 2, 3); } else set_be(m.gh2, 22, 2, junk);
    run(c, { m });
}
int main(int argc, char** argv)
{
    return explore_main(argc, argv, { { "gh1", gh1 }, { "gh23", gh23 }, { "block_fields", block_fields }, { "block_sets", block_sets },
        { "block_counts", block_counts }, { "block_types", block_types }, { "block_records", block_records }, { "lines", lines }, { "set_fields", set_fields },
        { "shapes", shapes }, { "large", large }, { "mixed_counts", mixed_counts } });
}
