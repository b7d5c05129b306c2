// SEG-Y files of more than 2 and 4 GB, built sparse: only headers and a few samples take room.
#pragma once
#include "segy_layouts.hpp"
#include "sparse.hpp"
namespace segy {
struct Large {
    MFile f;                 // headers, map and trailer
    vector<Hdr> hdr;         // of each trace, as read
    vector<uint64_t> len;    // samples of each trace
    vector<uint64_t> pos;    // of each trace, and the end of the last
    vector<vector<double>> head; // first samples of each trace, the others are 0
    size_t cross = 0;        // trace over the boundary
    bool ok = false;         // the file system took the file
    string desc;
    bool small(size_t i) const { return len[i] < (1 << 21); }
    MTrace expected(size_t i) const
    {
        MTrace t { hdr[i], head[i] };
        t.smp.resize(len[i]);
        return t;
    }
};
// kinds: 0 hole before the first trace; 1 fixed traces of 8 MB; 2 traces of more than 1 GB each; 3 many traces of 65535 samples;
// 4 fixed traces of more than 2 or 4 GB each
inline Large large(Ctx& c, string const& path, bool keys_down)
{
    int kind = c.pick(5);
    uint64_t B = c.of<uint64_t>({ 1ull << 31, 1ull << 32 });
    int rev = kind == 3 ? c.pick(3) : 2;
    vector<int> ds { 0, 1, 120, 240, 244, 248, 6000 };
    if (kind == 4) ds = { -8, 0, 8 };
    if (!c.thorough() && (kind == 1 || kind == 3)) ds = { 0, 120 };
    int d = rev < 2 ? 0 : c.of(ds); // the trace over the boundary starts so many bytes before it (no gaps before revision 2)
    bool fixed = kind == 1 || kind == 4 ? true : kind == 2 || rev == 0 ? rev == 0 : c.flag();
    int trail = rev == 2 ? c.pick(3) : 0; // none, counted, ended by a stanza
    if (kind == 3) trail %= 2;
    c.shard();
    Layout l {};
    l.rev = rev; l.endian = BE; l.code = kind == 3 || kind == 0 ? 5 : 6; l.fixed = fixed; l.gap = -1; l.n_trail = trail ? 1 : 0; l.trail_term = trail == 2;
    Large x;
    uint64_t n = kind == 4 ? (B + d) / 8 : kind == 0 ? 2 : kind == 1 ? 1 << 20 : 65535;
    x.f = build(l, kind == 3 ? 65535 : 2, {});
    x.f.map[0].second[114] = { "SAMP_NUM", kind == 2 ? VT::int32_t : VT::uint16_t };
    uint64_t bps = l.code == 5 ? 4 : 8, first = 3600, step = 240 + n * bps;
    if (kind == 1 || kind == 4) x.f.bin.ext_samp_per_tr = (int32_t)n;
    vector<uint64_t> lens;
    if (kind == 0) { lens = { 2, 2, 2, 2 }; x.cross = 1; first = B - d - step; }
    else if (kind == 4) { lens.assign(3, n); x.cross = 1; first = 3600 + 16; }
    else if (kind == 2) {
        // both the size and the position pass the boundary
        x.cross = B == 1ull << 31 ? 1 : 2;
        lens = { ((1ull << 31) - d) / 8, ((1ull << 31) - d) / 8 + 2, (1ull << 31) / 8 + 1, 3, 1 };
        first = 3600 + 8;
    } else {
        uint64_t k = (B - 3600) / step;
        x.cross = k;
        lens.assign(k + 3, n);
        first = B - d - k * step;
        if (first < 3600) { first += step; --x.cross; }
        if (rev < 2) first = 3600; // no gaps there
    }
    uint64_t p = first;
    if (rev == 2) { x.f.bin.byte_off_of_first_tr = first; x.f.bin.num_of_tr_in_file = lens.size(); }
    mc::Sparse s(path);
    s.put(0, x.f.text[0] + enc_bin(x.f.bin));
    for (size_t i = 0; i < lens.size(); ++i) {
        Hdr h;
        h["KEY"] = (int64_t)(keys_down ? lens.size() - i : i);
        h["T0"] = (int64_t)(i * 3 + 1);
        h["SAMP_NUM"] = (int64_t)(kind == 1 || kind == 4 ? 0 : lens[i]);
        vector<double> v { 1.0 + i % 100, 2 };
        if (lens[i] < v.size()) v.resize(lens[i]);
        s.put(p, enc_hdr(x.f.map[0].second, h, false) + enc_samples(x.f.bin, v, v.size()));
        x.hdr.push_back(h);
        x.len.push_back(lens[i]);
        x.head.push_back(v);
        x.pos.push_back(p);
        p += 240 + lens[i] * bps;
    }
    x.pos.push_back(p);
    s.size(p);
    for (auto& t : x.f.trailer) { s.put(p, t); p += t.size(); }
    x.ok = s.ok;
    x.desc = fmt("kind %d, %zu traces, first at %llu, trace %zu at %llu", kind, lens.size(), (unsigned long long)first, x.cross, (unsigned long long)x.pos[x.cross]);
    return x;
}
} // namespace segy
