// C09: BCD encoding and decoding agree for every value, width and alignment.
#include "explore.hpp"
#include "util.hpp"
#include <memory>
using namespace mc;
using std::string;

static uint64_t pow10u(int n) { uint64_t r = 1; while (n--) r *= 10; return r; }

// one value through encoder and decoder, in a buffer of exactly the bytes of the field
template <class T> static void one(Ctx& c, uint64_t v, int num, bool skip, int fill, int type)
{
    int const bytes = (num + skip + 1) / 2;
    std::unique_ptr<char[]> buf(new char[bytes]);
    memset(buf.get(), fill, bytes);
    // the half byte of the field must be clear when the first half is skipped; the skipped half is arbitrary
    if (skip) buf[0] &= (char)0xf0;
    char* p = buf.get();
    sedaman::to_bcd<T>(&p, (T)v, skip, num);
    c.step(2);
    if (p - buf.get() != (num + skip) / 2)
        c.fail(fmt("to_bcd(%llu, %d, %d) advances %ld bytes", (unsigned long long)v, skip, num, (long)(p - buf.get())));
    auto nib = [&](int i) { return (unsigned char)buf[i / 2] >> (i % 2 ? 0 : 4) & 0xf; };
    uint64_t w = v;
    for (int i = num - 1; i >= 0; --i) {
        int d = nib(i + skip);
        if (d != (int)(w % 10)) c.fail(fmt("to_bcd(%llu, %d, %d): digit %d is %d expected %d", (unsigned long long)v, skip, num, i, d, (int)(w % 10)));
        w /= 10;
    }
    if (skip && nib(0) != (fill >> 4 & 0xf)) c.fail(fmt("to_bcd(%llu, 1, %d) changes the skipped half byte", (unsigned long long)v, num));
    string before(buf.get(), bytes);
    char const* q = buf.get();
    T r = sedaman::from_bcd<T>(&q, skip, num);
    if ((uint64_t)r != v) c.fail(fmt("from_bcd(to_bcd(%llu, %d, %d)) is %llu", (unsigned long long)v, skip, num, (unsigned long long)r));
    if (q - buf.get() != (num + skip) / 2) c.fail(fmt("from_bcd(%d, %d) advances %ld bytes", skip, num, (long)(q - buf.get())));
    if (before != string(buf.get(), bytes)) c.fail("from_bcd changes its input");
    (void)type;
}
template <class T> static void width(Ctx& c, int num, bool skip, int fill, int type)
{
    uint64_t lim = pow10u(num) - 1, tmax = sizeof(T) == 8 ? (uint64_t)INT64_MAX : (1ull << (sizeof(T) * 8 - (T(-1) < T(0) ? 1 : 0))) - 1;
    uint64_t top = lim < tmax ? lim : tmax;
    auto go = [&](uint64_t v) { if (v <= top) { one<T>(c, v, num, skip, fill, type); Hash h; h << v << num << skip << fill << type; c.state(h.h); } };
    uint64_t full = c.thorough() ? 9999 : 999;
    for (uint64_t v = 0; v <= full && v <= top; ++v) go(v);
    for (uint64_t v = top; v && top - v < 12; --v) go(v);
    // every digit value at every position over three backgrounds, and around every power of ten and two
    for (int pos = 0; pos < num; ++pos)
        for (int d = 0; d < 10; ++d)
            for (int bg : { 0, 9, 4, 5 }) {
                uint64_t v = 0;
                for (int i = 0; i < num; ++i) v = v * 10 + (i == pos ? d : bg);
                go(v);
            }
    for (int i = 0; i < 12; ++i) for (int k = -1; k < 2; ++k) go(pow10u(i) + k);
    for (int i = 0; i < 40; ++i) for (int k = -1; k < 2; ++k) go((1ull << i) + k);
}
static void round_trip(Ctx& c)
{
    int num = 1 + c.pick(12);
    bool skip = c.flag();
    int type = c.pick(8);
    int fill = c.of({ 0x00, 0xff, 0xa0, 0x50 });
    c.shard();
    switch (type) {
    case 0: width<uint8_t>(c, num, skip, fill, type); break;
    case 1: width<uint16_t>(c, num, skip, fill, type); break;
    case 2: width<uint32_t>(c, num, skip, fill, type); break;
    case 3: width<uint64_t>(c, num, skip, fill, type); break;
    case 4: width<int16_t>(c, num, skip, fill, type); break;
    case 5: width<int32_t>(c, num, skip, fill, type); break;
    case 6: width<int64_t>(c, num, skip, fill, type); break;
    case 7: width<int8_t>(c, num, skip, fill, type); break;
    }
}
// all values of a 16-bit field
static void all16(Ctx& c)
{
    int num = 4 + c.pick(2);
    bool skip = c.flag();
    int blk = c.pick(64);
    c.shard();
    for (int v = blk * 1024; v < blk * 1024 + 1024; ++v) {
        if ((uint64_t)v >= pow10u(num)) break;
        one<uint16_t>(c, v, num, skip, 0x30, 1);
        one<uint32_t>(c, v, num, skip, 0x30, 2);
        Hash h;
        h << v << num << skip;
        c.state(h.h);
    }
}
// decoding any half bytes: sum of half byte times power of ten, independent of the neighbours
static void decode(Ctx& c)
{
    int num = 1 + c.pick(12);
    bool skip = c.flag();
    int bg = c.of({ 0x0, 0x9, 0xf });
    c.shard();
    int const bytes = (num + skip + 1) / 2;
    for (int pos = 0; pos < num; ++pos)
        for (int v = 0; v < 256; ++v)
            for (int out : { 0x0, 0xf }) {
                // nibble pos = high half of v, its right neighbour (inside the field) = low half
                std::unique_ptr<unsigned char[]> b(new unsigned char[bytes]);
                memset(b.get(), out * 17, bytes);
                uint64_t want = 0;
                for (int i = 0; i < num; ++i) {
                    int n = i == pos ? v >> 4 : i == pos + 1 ? v & 15 : bg;
                    int k = i + skip;
                    b[k / 2] = k % 2 ? (b[k / 2] & 0xf0) | n : (b[k / 2] & 0x0f) | n << 4;
                    want = want * 10 + n;
                }
                char const* q = (char const*)b.get();
                uint64_t r = sedaman::from_bcd<uint64_t>(&q, skip, num);
                c.step();
                if (r != want) c.fail(fmt("from_bcd(%s, %d, %d) is %llu expected %llu", hex(string((char*)b.get(), bytes)).c_str(), skip, num, (unsigned long long)r, (unsigned long long)want));
                if (q - (char const*)b.get() != (num + skip) / 2) c.fail(fmt("from_bcd(%d, %d) advances %ld bytes", skip, num, (long)(q - (char const*)b.get())));
                if (want < 65536 && num < 6) {
                    q = (char const*)b.get();
                    if (sedaman::from_bcd<uint16_t>(&q, skip, num) != want) c.fail("from_bcd<uint16_t> differs");
                }
                Hash h;
                h << num << skip << want << out;
                c.state(h.h);
            }
}
// fields written one after another share bytes: sequences of widths laid end to end decode to what was written
static void sequences(Ctx& c)
{
    int n = 2 + c.pick(c.thorough() ? 3 : 2);
    int w[4];
    for (int i = 0; i < n; ++i) w[i] = 1 + c.pick(5);
    c.shard();
    int val = c.pick(3);
    string buf(16, 0);
    int nib = 0;
    uint64_t v[4];
    char* p = &buf[0];
    for (int i = 0; i < n; ++i) {
        v[i] = val == 0 ? pow10u(w[i]) - 1 : val == 1 ? 12345 % pow10u(w[i]) : 1;
        sedaman::to_bcd<uint32_t>(&p, (uint32_t)v[i], nib % 2, w[i]);
        nib += w[i];
        c.step();
        if (p - &buf[0] != nib / 2) c.fail("position after a field is wrong");
    }
    for (size_t i = (nib + 1) / 2; i < buf.size(); ++i) if (buf[i]) c.fail("bytes after the last field changed");
    char const* q = buf.data();
    nib = 0;
    for (int i = 0; i < n; ++i) {
        uint32_t r = sedaman::from_bcd<uint32_t>(&q, nib % 2, w[i]);
        nib += w[i];
        c.step();
        if (r != v[i]) c.fail(fmt("field %d of widths is %u expected %llu (%s)", i, r, (unsigned long long)v[i], hex(buf).c_str()));
    }
    c.state(buf);
}
int main(int argc, char** argv)
{
    return explore_main(argc, argv, { { "round_trip", round_trip }, { "all16", all16 }, { "decode", decode }, { "sequences", sequences } });
}
