// C08: EBCDIC and ASCII conversion are inverse of each other on every byte.
#include "segy_model.hpp"
using namespace segy;

// code page 037, built from its published layout (letters in three runs, digits, punctuation)
static int cp037(int ch)
{
    if (ch >= 'A' && ch <= 'I') return 0xc1 + ch - 'A';
    if (ch >= 'J' && ch <= 'R') return 0xd1 + ch - 'J';
    if (ch >= 'S' && ch <= 'Z') return 0xe2 + ch - 'S';
    if (ch >= 'a' && ch <= 'i') return 0x81 + ch - 'a';
    if (ch >= 'j' && ch <= 'r') return 0x91 + ch - 'j';
    if (ch >= 's' && ch <= 'z') return 0xa2 + ch - 's';
    if (ch >= '0' && ch <= '9') return 0xf0 + ch - '0';
    switch (ch) {
    case ' ': return 0x40; case '.': return 0x4b; case '<': return 0x4c; case '(': return 0x4d; case '+': return 0x4e;
    case '|': return 0x4f; case '&': return 0x50; case '!': return 0x5a; case '$': return 0x5b; case '*': return 0x5c;
    case ')': return 0x5d; case ';': return 0x5e; case '-': return 0x60; case '/': return 0x61; case ',': return 0x6b;
    case '%': return 0x6c; case '_': return 0x6d; case '>': return 0x6e; case '?': return 0x6f; case ':': return 0x7a;
    case '#': return 0x7b; case '@': return 0x7c; case '\'': return 0x7d; case '=': return 0x7e; case '"': return 0x7f;
    default: return -1;
    }
}
static void conv(bool to_e, string& s) { if (to_e) CommonSEGY::ascii_to_ebcdic(s); else CommonSEGY::ebcdic_to_ascii(s); }

// every byte in every pair context: converting is bytewise, length preserving and inverted by the other direction
static void pairs(Ctx& c)
{
    bool dir = c.flag();
    int a = c.pick(256);
    c.shard();
    string one(1, (char)a);
    conv(dir, one);
    c.require(one.size() == 1, "the length of one byte changed");
    for (int b = 0; b < 256; ++b) {
        string s { (char)a, (char)b }, t = s;
        conv(dir, t);
        c.step(2);
        if (t.size() != 2) c.fail("the length changed");
        if (t[0] != one[0]) c.fail(fmt("byte %02x converts differently before %02x", a, b));
        Hash h;
        h << dir << t;
        c.state(h.h);
        conv(!dir, t);
        if (t != s) c.fail(fmt("%s and back gives %s for %s", dir ? "to EBCDIC" : "to ASCII", hex(t).c_str(), hex(s).c_str()));
    }
    int e = dir ? cp037(a) : -1;
    if (dir && e >= 0 && (unsigned char)one[0] != e) c.fail(fmt("'%c' converts to %02x expected %02x", a, (unsigned char)one[0], e));
    if (!dir)
        for (int ch = 32; ch < 127; ++ch)
            if (cp037(ch) == a && one[0] != (char)ch) c.fail(fmt("%02x converts to %02x expected '%c'", a, (unsigned char)one[0], ch));
}
// both directions are permutations of the 256 bytes
static void bijective(Ctx& c)
{
    bool dir = c.flag();
    c.shard();
    bool seen[256] = {};
    for (int i = 0; i < 256; ++i) {
        string s(1, (char)i);
        conv(dir, s);
        c.step();
        unsigned char r = (unsigned char)s.at(0);
        if (seen[r]) c.fail(fmt("two bytes convert to %02x", r));
        seen[r] = true;
        c.state(fmt("%d %d %d", dir, i, r));
    }
}
// every length up to a header and beyond, starting at every phase of the byte cycle, and texts with embedded zeros
static void lengths(Ctx& c)
{
    bool dir = c.flag();
    int kind = c.pick(4);
    int blk = c.pick(c.thorough() ? 101 : 34);
    c.shard();
    string tab[256];
    for (int i = 0; i < 256; ++i) { tab[i] = string(1, (char)i); conv(dir, tab[i]); }
    for (int k = 0; k < 100; ++k) {
        int n = blk * 100 + k;
        if (!c.thorough() && n > 3205) n = 100000 + n;
        string s(n, 0);
        for (int i = 0; i < n; ++i) s[i] = (char)(kind == 0 ? i + n : kind == 1 ? (i % 7 ? 0x41 : 0) : kind == 2 ? 255 - i : i * 37 + 11);
        string t = s;
        conv(dir, t);
        c.step(2);
        c.require((int)t.size() == n, "the length changed");
        for (int i = 0; i < n; ++i) if (t[i] != tab[(unsigned char)s[i]][0]) c.fail(fmt("byte %d of %d is converted differently", i, n));
        Hash h;
        h << dir << kind << n;
        c.state(h.h);
        conv(!dir, t);
        if (t != s) c.fail(fmt("length %d: ", n) + diff(s, t));
    }
}
int main(int argc, char** argv)
{
    return explore_main(argc, argv, { { "pairs", pairs }, { "bijective", bijective }, { "lengths", lengths } });
}
