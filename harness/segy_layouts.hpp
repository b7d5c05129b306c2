// SEG-Y files of every layout class, built by the reference encoder.
#pragma once
#include "segy_model.hpp"
namespace segy {
struct Layout {
    int rev;         // major revision in the file
    int32_t endian;
    int code;        // sample format
    bool fixed;
    int n_ext;       // extended text headers
    bool ext_term;   // ended by an end stanza instead of counted
    int gap;         // -1: no offset in the header, >= 0: offset stored, with so many bytes between
    int add;         // additional trace headers
    int n_trail;
    bool trail_term; // trailer ended by an end stanza instead of counted
    bool wide;       // standard map (with 4-byte SAMP_NUM in the additional header) or a small custom one
};
inline HMap layout_map(Layout const& l)
{
    if (l.wide) return std_map();
    HMap m;
    for (int i = 0; i <= l.add; ++i) m.push_back({ fmt("SEG%05d", i), { { 236, { fmt("T%d", i), VT::int32_t } } } });
    m[0].second[114] = { "SAMP_NUM", VT::uint16_t };
    m[0].second[0] = { "KEY", VT::int32_t };
    return m;
}
inline string end_stanza(int k)
{
    string s = text_block('A', 50 + k);
    return "((SEG: EndText))" + s.substr(16);
}
// lens: number of samples of each trace (for fixed length all equal to `n`)
inline MFile build(Layout const& l, int n, vector<int> const& lens)
{
    MFile f;
    f.text = { text_block('A', 0) };
    for (int i = 0; i < l.n_ext; ++i) f.text.push_back(l.ext_term && i == l.n_ext - 1 ? end_stanza(i) : text_block('B', i + 1));
    for (int i = 0; i < l.n_trail; ++i) f.trailer.push_back(l.trail_term && i == l.n_trail - 1 ? end_stanza(9 + i) : text_block('a', i));
    Bin b = {};
    b.endianness = l.endian;
    b.format_code = (int16_t)l.code;
    b.samp_per_tr = (int16_t)(uint16_t)n;
    b.samp_int = 1000;
    b.SEGY_rev_major_ver = (uint8_t)l.rev;
    b.fixed_tr_length = l.fixed && l.rev ? 1 : 0;
    b.ext_text_headers_num = (int16_t)(l.ext_term && l.n_ext ? -1 : l.n_ext);
    if (l.rev > 1) {
        b.max_num_add_tr_headers = l.add;
        b.num_of_trailer_stanza = l.trail_term && l.n_trail ? -1 : l.n_trail;
        b.num_of_tr_in_file = lens.size();
        if (l.gap >= 0) b.byte_off_of_first_tr = 3600 + 3200ull * l.n_ext + l.gap;
    }
    f.gap = l.gap > 0 ? l.gap : 0;
    f.bin = b;
    f.map = layout_map(l);
    for (size_t i = 0; i < lens.size(); ++i) {
        MTrace t;
        int k = fixed_length(b) ? declared_samples(b) : lens[i];
        t.hdr["SAMP_NUM"] = (int64_t)k;
        if (l.wide) {
            t.hdr["FFID"] = (int64_t)(100 + i);
            t.hdr["CDP_X"] = l.add ? Value(7.0 + (double)i) : Value((int64_t)(7 + i));
        } else {
            t.hdr["KEY"] = (int64_t)(1000 - (int64_t)i);
            for (int a = 0; a <= l.add; ++a) t.hdr[fmt("T%d", a)] = (int64_t)(i * 100 + a + 1);
        }
        for (int q = 0; q < k; ++q) t.smp.push_back(1 + (q * 3 + (int)i * 5) % 97);
        f.tr.push_back(t);
    }
    return f;
}
// all layouts of the small shape space (format and byte order chosen separately)
inline Layout pick_layout(Ctx& c, vector<int> const& codes, vector<int32_t> const& endians, bool rich)
{
    Layout l {};
    l.rev = c.pick(3);
    l.endian = c.of(endians);
    l.code = c.of(codes);
    l.fixed = l.rev ? c.flag() : true;
    l.n_ext = l.rev ? c.pick(rich ? 4 : 3) : 0;
    l.ext_term = l.n_ext ? c.flag() : false;
    l.gap = -1;
    if (l.rev == 2) {
        l.gap = rich ? c.of({ -1, 0, 1, 240, 3200 }) : c.of({ -1, 240 });
        l.add = rich ? c.pick(4) : c.pick(3);
        l.n_trail = c.pick(3);
        l.trail_term = l.n_trail ? c.flag() : false;
        l.wide = l.add == 1 ? c.flag() : false;
    }
    return l;
}
} // namespace segy
