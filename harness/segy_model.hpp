// Independent reference model of SEG-Y (revisions 0-2): byte layout, codecs, expected reader results.
#pragma once
#include "CommonSEGY.hpp"
#include "Exception.hpp"
#include "ISEGY.hpp"
#include "ISEGYSorted1D.hpp"
#include "OSEGYRev0.hpp"
#include "OSEGYRev1.hpp"
#include "OSEGYRev2.hpp"
#include "Trace.hpp"
#include "explore.hpp"
#include <cmath>
#include <map>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>

namespace segy {
using namespace mc;
using std::string;
using std::vector;
using sedaman::CommonSEGY;
using sedaman::Trace;
using Bin = CommonSEGY::BinaryHeader;
using Value = Trace::Header::Value;
using VT = Trace::Header::ValueType;
using HMap = vector<std::pair<string, std::map<uint32_t, std::pair<string, VT>>>>;
using Hdr = std::unordered_map<string, Value>;

constexpr int32_t LE = 0x01020304, BE = 0x04030201;
inline bool is_le(int32_t e) { return e == LE; }

// ---- raw bytes
inline void put(string& s, size_t off, int width, uint64_t v, bool le)
{
    if (s.size() < off + width) s.resize(off + width, 0);
    for (int i = 0; i < width; ++i) s[off + (le ? i : width - 1 - i)] = (char)(v >> (8 * i));
}
inline uint64_t get(string const& s, size_t off, int width, bool le)
{
    uint64_t v = 0;
    for (int i = 0; i < width; ++i) v |= (uint64_t)(unsigned char)s[off + (le ? i : width - 1 - i)] << (8 * i);
    return v;
}
inline int64_t sext(uint64_t v, int width)
{
    if (width == 8) return (int64_t)v;
    uint64_t m = 1ull << (8 * width - 1);
    return (int64_t)((v ^ m) - m);
}

// ---- IBM single: sign, excess-64 power of 16, 24-bit fraction
inline uint32_t ibm_enc(double v)
{
    uint32_t sign = v < 0 ? 0x80000000u : 0;
    if (v < 0) v = -v;
    if (v == 0) return 0;
    int e = 64;
    while (v >= 1) { v /= 16; ++e; }
    while (v < 0.0625 && e > 0) { v *= 16; --e; }
    if (e > 127) return sign | 0x7fffffff;
    return sign | (uint32_t)e << 24 | (uint32_t)(v * 16777216.0);
}
inline double ibm_dec(uint32_t w)
{
    double f = (double)(w & 0xffffff) / 16777216.0;
    int e = (int)(w >> 24 & 0x7f) - 64;
    for (; e > 0; --e) f *= 16;
    for (; e < 0; ++e) f /= 16;
    return w >> 31 ? -f : f;
}

inline uint32_t f2u(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
inline float u2f(uint32_t u) { float f; memcpy(&f, &u, 4); return f; }
inline uint64_t d2u(double f) { uint64_t u; memcpy(&u, &f, 8); return u; }
inline double u2d(uint64_t u) { double f; memcpy(&f, &u, 8); return f; }

// ---- sample formats
struct Fmt { int code, width; bool is_int, is_signed; };
inline vector<Fmt> const& formats()
{
    static vector<Fmt> const f = { { 1, 4, false, true }, { 2, 4, true, true }, { 3, 2, true, true }, { 5, 4, false, true },
        { 6, 8, false, true }, { 7, 3, true, true }, { 8, 1, true, true }, { 9, 8, true, true }, { 10, 4, true, false },
        { 11, 2, true, false }, { 12, 8, true, false }, { 15, 3, true, false }, { 16, 1, true, false } };
    return f;
}
inline Fmt fmt_of(int code)
{
    for (auto& f : formats()) if (f.code == code) return f;
    return { code, 0, false, false };
}
inline uint64_t smp_bits(Fmt f, double v)
{
    if (f.code == 1) return ibm_enc(v);
    if (f.code == 5) return f2u((float)v);
    if (f.code == 6) return d2u(v);
    if (v < 0) return (uint64_t)(int64_t)v;
    return (uint64_t)v;
}
inline double smp_val(Fmt f, uint64_t b)
{
    if (f.code == 1) return ibm_dec((uint32_t)b);
    if (f.code == 5) return u2f((uint32_t)b);
    if (f.code == 6) return u2d(b);
    return f.is_signed ? (double)sext(b, f.width) : (double)b;
}

// ---- trace header fields
inline int vt_size(VT t)
{
    switch (t) {
    case VT::int8_t: case VT::uint8_t: return 1;
    case VT::int16_t: case VT::uint16_t: return 2;
    case VT::int24_t: case VT::uint24_t: return 3;
    case VT::int32_t: case VT::uint32_t: case VT::ibm: case VT::ieee_single: return 4;
    default: return 8;
    }
}
inline bool vt_real(VT t) { return t == VT::ibm || t == VT::ieee_single || t == VT::ieee_double; }
inline bool vt_signed(VT t) { return t == VT::int8_t || t == VT::int16_t || t == VT::int24_t || t == VT::int32_t || t == VT::int64_t; }
inline vector<VT> const& all_vt()
{
    static vector<VT> const v = { VT::int8_t, VT::uint8_t, VT::int16_t, VT::uint16_t, VT::int24_t, VT::uint24_t, VT::int32_t,
        VT::uint32_t, VT::int64_t, VT::uint64_t, VT::ibm, VT::ieee_single, VT::ieee_double };
    return v;
}
inline int64_t as_int(Value const& v) { return v.index() == 0 ? std::get<0>(v) : (int64_t)std::get<1>(v); }
inline double as_dbl(Value const& v) { return v.index() == 1 ? std::get<1>(v) : (double)std::get<0>(v); }
inline uint64_t fld_bits(VT t, Value const& v)
{
    if (t == VT::ibm) return ibm_enc(as_dbl(v));
    if (t == VT::ieee_single) return f2u((float)as_dbl(v));
    if (t == VT::ieee_double) return d2u(as_dbl(v));
    return (uint64_t)as_int(v);
}
inline Value fld_val(VT t, uint64_t b)
{
    if (t == VT::ibm) return ibm_dec((uint32_t)b);
    if (t == VT::ieee_single) return (double)u2f((uint32_t)b);
    if (t == VT::ieee_double) return u2d(b);
    int w = vt_size(t);
    if (vt_signed(t)) return sext(b, w);
    return (int64_t)(w == 8 ? b : b & ((1ull << (8 * w)) - 1));
}
// boundary values of a field type
inline vector<Value> fld_alphabet(VT t)
{
    int w = vt_size(t) * 8;
    vector<Value> r;
    if (t == VT::ibm)
        for (double d : { 0.0, 1.0, -1.0, 0.0625, 16.0, 256.0, -4096.0, 0.5, 15.9375, 123.25, -0.00390625, 65536.0, 1048575.0 }) r.push_back(d);
    else if (t == VT::ieee_single)
        for (double d : { 0.0, 1.0, -1.0, 0.5, 3.5, -123456.5, (double)1.17549435e-38f, (double)3.40282347e38f, (double)1.40129846e-45f }) r.push_back(d);
    else if (t == VT::ieee_double)
        for (double d : { 0.0, 1.0, -1.0, 0.1, -123456.789, 4.9e-324, 1.7976931348623157e308, 2147483648.0 }) r.push_back(d);
    else if (t == VT::int64_t || t == VT::uint64_t)
        for (int64_t d : { (int64_t)0, (int64_t)1, (int64_t)-1, INT64_MAX, INT64_MIN, (int64_t)0x0102030405060708, (int64_t)0xff00, (int64_t)0x80000000ll }) r.push_back(d);
    else if (vt_signed(t)) {
        int64_t m = (1ll << (w - 1)) - 1;
        for (int64_t d : { (int64_t)0, (int64_t)1, (int64_t)-1, m, -m - 1, m - 1, (int64_t)(0x12345678 & m), (int64_t)-2 }) r.push_back(d);
    } else {
        int64_t m = (1ll << w) - 1;
        for (int64_t d : { (int64_t)0, (int64_t)1, m, m / 2, m / 2 + 1, m - 1, (int64_t)(0x92345678 & m) }) r.push_back(d);
    }
    return r;
}

// ---- the standard trace header maps (from the SEG-Y rev 2 tables, with the library's field names)
inline HMap const& std_map()
{
    static HMap const m = [] {
        HMap r(2);
        r[0].first = "SEG00000";
        r[1].first = "SEG00001";
        uint32_t off = 0;
        // '4'/'2' byte integers in table order
        struct E { int w; char const* n; };
        for (E e : std::initializer_list<E> { { 4, "TRC_SEQ_LINE" }, { 4, "TRC_SEQ_SGY" }, { 4, "FFID" }, { 4, "CHAN" }, { 4, "ESP" },
                 { 4, "ENS_NO" }, { 4, "SEQ_NO" }, { 2, "TRACE_ID" }, { 2, "VERT_SUM" }, { 2, "HOR_SUM" }, { 2, "DATA_USE" },
                 { 4, "OFFSET" }, { 4, "R_ELEV" }, { 4, "S_ELEV" }, { 4, "S_DEPTH" }, { 4, "R_DATUM" }, { 4, "S_DATUM" },
                 { 4, "S_WATER" }, { 4, "R_WATER" }, { 2, "ELEV_SCALAR" }, { 2, "COORD_SCALAR" }, { 4, "SOU_X" }, { 4, "SOU_Y" },
                 { 4, "REC_X" }, { 4, "REC_Y" }, { 2, "COORD_UNITS" }, { 2, "WEATH_VEL" }, { 2, "SUBWEATH_VEL" }, { 2, "S_UPHOLE" },
                 { 2, "R_UPHOLE" }, { 2, "S_STAT" }, { 2, "R_STAT" }, { 2, "TOT_STAT" }, { 2, "LAG_A" }, { 2, "LAG_B" },
                 { 2, "DELAY_TIME" }, { 2, "MUTE_START" }, { 2, "MUTE_END" }, { 2, "SAMP_NUM" }, { 2, "SAMP_INT" }, { 2, "GAIN_TYPE" },
                 { 2, "GAIN_CONST" }, { 2, "INIT_GAIN" }, { 2, "CORRELATED" }, { 2, "SW_START" }, { 2, "SW_END" }, { 2, "SW_LENGTH" },
                 { 2, "SW_TYPE" }, { 2, "SW_TAPER_START" }, { 2, "SW_TAPER_END" }, { 2, "TAPER_TYPE" }, { 2, "ALIAS_FILT_FREQ" },
                 { 2, "ALIAS_FILT_SLOPE" }, { 2, "NOTCH_FILT_FREQ" }, { 2, "NOTCH_FILT_SLOPE" }, { 2, "LOW_CUT_FREQ" },
                 { 2, "HIGH_CUT_FREQ" }, { 2, "LOW_CUT_SLOPE" }, { 2, "HIGH_CUT_SLOPE" }, { 2, "YEAR" }, { 2, "DAY" }, { 2, "HOUR" },
                 { 2, "MINUTE" }, { 2, "SECOND" }, { 2, "TIME_BASIS_CODE" }, { 2, "TRACE_WEIGHT" }, { 2, "GROUP_NUM_ROLL" },
                 { 2, "GROUP_NUM_FIRST" }, { 2, "GROUP_NUM_LAST" }, { 2, "GAP_SIZE" }, { 2, "OVER_TRAVEL" }, { 4, "CDP_X" },
                 { 4, "CDP_Y" }, { 4, "INLINE" }, { 4, "XLINE" }, { 4, "SP_NUM" }, { 2, "SP_NUM_SCALAR" }, { 2, "TR_VAL_UNIT" },
                 { 4, "TRANS_CONST_MANT" }, { 2, "TRANS_CONST_EXP" }, { 2, "TRANS_UNITS" }, { 2, "DEVICE_ID" }, { 2, "TIME_SCALAR" },
                 { 2, "SOURCE_TYPE" }, { 2, "SOU_V_DIR" }, { 2, "SOU_X_DIR" }, { 2, "SOU_I_DIR" }, { 4, "SOURCE_MEASUREMENT_MANT" },
                 { 2, "SOURCE_MEASUREMENT_EXP" }, { 2, "SOU_MEAS_UNIT" } }) {
            r[0].second[off] = { e.n, e.w == 4 ? VT::int32_t : VT::int16_t };
            off += e.w;
        }
        off = 0;
        for (char const* n : { "TRC_SEQ_LINE", "TRC_SEQ_SGY", "FFID", "ENS_NO" }) { r[1].second[off] = { n, VT::uint64_t }; off += 8; }
        for (char const* n : { "R_ELEV", "R_DEPTH", "S_ELEV", "S_DEPTH", "R_DATUM", "S_DATUM", "S_WATER", "R_WATER", "SOU_X", "SOU_Y",
                 "REC_X", "REC_Y", "OFFSET" }) { r[1].second[off] = { n, VT::ieee_double }; off += 8; }
        r[1].second[136] = { "SAMP_NUM", VT::int32_t };
        r[1].second[140] = { "NANOSECOND", VT::int32_t };
        r[1].second[144] = { "SAMP_INT", VT::ieee_double };
        r[1].second[152] = { "CABLE_NUM", VT::int32_t };
        r[1].second[156] = { "ADD_TRC_HDR_NUM", VT::int16_t };
        r[1].second[158] = { "LAST_TRC_FLAG", VT::int16_t };
        r[1].second[160] = { "CDP_X", VT::ieee_double };
        r[1].second[168] = { "CDP_Y", VT::ieee_double };
        return r;
    }();
    return m;
}

// ---- binary header
struct BF {
    char const* name;
    int off, width; // width 8 with real=true is an IEEE double
    bool real, is_signed, rev2;
    std::function<uint64_t(Bin const&)> get;
    std::function<void(Bin&, uint64_t)> set;
};
#define BF_INT(n, off, sg, rev2) BF { #n, off, (int)sizeof(Bin::n), false, sg, rev2, \
    [](Bin const& b) { return (uint64_t)b.n; }, [](Bin& b, uint64_t v) { b.n = (decltype(Bin::n))v; } }
#define BF_DBL(n, off) BF { #n, off, 8, true, true, false, [](Bin const& b) { return d2u(b.n); }, [](Bin& b, uint64_t v) { b.n = u2d(v); } }
inline vector<BF> const& bin_fields()
{
    static vector<BF> const f = {
        BF_INT(job_id, 0, true, false), BF_INT(line_num, 4, true, false), BF_INT(reel_num, 8, true, false),
        BF_INT(tr_per_ens, 12, true, false), BF_INT(aux_per_ens, 14, true, false), BF_INT(samp_int, 16, true, false),
        BF_INT(samp_int_orig, 18, true, false), BF_INT(samp_per_tr, 20, true, false), BF_INT(samp_per_tr_orig, 22, true, false),
        BF_INT(format_code, 24, true, false), BF_INT(ens_fold, 26, true, false), BF_INT(sort_code, 28, true, false),
        BF_INT(vert_sum_code, 30, true, false), BF_INT(sw_freq_at_start, 32, true, false), BF_INT(sw_freq_at_end, 34, true, false),
        BF_INT(sw_length, 36, true, false), BF_INT(sw_type_code, 38, true, false), BF_INT(sw_ch_tr_num, 40, true, false),
        BF_INT(taper_at_start, 42, true, false), BF_INT(taper_at_end, 44, true, false), BF_INT(taper_type, 46, true, false),
        BF_INT(corr_traces, 48, true, false), BF_INT(bin_gain_recov, 50, true, false), BF_INT(amp_recov_meth, 52, true, false),
        BF_INT(measure_system, 54, true, false), BF_INT(impulse_sig_pol, 56, true, false), BF_INT(vib_pol_code, 58, true, false),
        BF_INT(ext_tr_per_ens, 60, true, false), BF_INT(ext_aux_per_ens, 64, true, false), BF_INT(ext_samp_per_tr, 68, true, false),
        BF_DBL(ext_samp_int, 72), BF_DBL(ext_samp_int_orig, 80), BF_INT(ext_samp_per_tr_orig, 88, true, false),
        BF_INT(ext_ens_fold, 92, true, false), BF_INT(endianness, 96, true, false), BF_INT(SEGY_rev_major_ver, 300, false, false),
        BF_INT(SEGY_rev_minor_ver, 301, false, false), BF_INT(fixed_tr_length, 302, true, false),
        BF_INT(ext_text_headers_num, 304, true, false), BF_INT(max_num_add_tr_headers, 306, true, true),
        BF_INT(time_basis_code, 310, true, true), BF_INT(num_of_tr_in_file, 312, false, true),
        BF_INT(byte_off_of_first_tr, 320, false, true), BF_INT(num_of_trailer_stanza, 328, true, true)
    };
    return f;
}
inline string enc_bin(Bin const& b)
{
    string s(400, 0);
    bool le = is_le(b.endianness);
    for (auto& f : bin_fields())
        // the byte order constant is 0x01020304 in the byte order of the file: 01 02 03 04 or 04 03 02 01 (0: not set)
        if (f.off == 96) put(s, 96, 4, b.endianness ? 0x01020304 : 0, le);
        else put(s, f.off, f.width, f.get(b), le);
    return s;
}
inline Bin dec_bin(string const& s)
{
    Bin b = {};
    string e = s.substr(96, 4);
    b.endianness = e == string("\4\3\2\1") ? LE : e == string("\1\2\3\4") ? BE : (int32_t)get(s, 96, 4, true);
    bool le = is_le(b.endianness);
    bool rev2 = (unsigned char)s[300] > 1;
    for (auto& f : bin_fields())
        if (f.off != 96 && (rev2 || !f.rev2)) {
            uint64_t v = get(s, f.off, f.width, le);
            f.set(b, f.is_signed && !f.real ? (uint64_t)sext(v, f.width) : v);
        }
    return b;
}
inline string diff_bin(Bin const& want, Bin const& got)
{
    for (auto& f : bin_fields()) {
        uint64_t a = f.get(want), b = f.get(got);
        if (a != b) return fmt("binary header %s is %lld expected %lld", f.name, (long long)b, (long long)a);
    }
    return "";
}
inline int32_t declared_samples(Bin const& b) { return b.ext_samp_per_tr ? b.ext_samp_per_tr : (uint16_t)b.samp_per_tr; }
inline bool fixed_length(Bin const& b) { return b.fixed_tr_length || b.SEGY_rev_major_ver == 0; }

// ---- traces
struct MTrace {
    Hdr hdr;
    vector<double> smp;
};
inline string enc_hdr(std::map<uint32_t, std::pair<string, VT>> const& m, Hdr const& h, bool le)
{
    string s(240, 0);
    for (auto& p : m) {
        auto it = h.find(p.second.first);
        if (it != h.end()) put(s, p.first, vt_size(p.second.second), fld_bits(p.second.second, it->second), le);
    }
    return s;
}
inline string enc_samples(Bin const& b, vector<double> const& v, size_t n)
{
    Fmt f = fmt_of(b.format_code);
    string s(n * f.width, 0);
    for (size_t i = 0; i < v.size() && i < n; ++i) put(s, i * f.width, f.width, smp_bits(f, v[i]), is_le(b.endianness));
    return s;
}
inline size_t trace_samples(Bin const& b, MTrace const& t)
{
    if (fixed_length(b)) return declared_samples(b);
    auto it = t.hdr.find("SAMP_NUM");
    return it == t.hdr.end() ? 0 : (size_t)as_int(it->second);
}
inline string enc_trace(Bin const& b, HMap const& m, MTrace const& t)
{
    string s;
    int add = b.SEGY_rev_major_ver > 1 ? b.max_num_add_tr_headers : 0;
    for (int i = 0; i <= add; ++i)
        s += i < (int)m.size() ? enc_hdr(m[i].second, t.hdr, is_le(b.endianness)) : string(240, 0);
    return s + enc_samples(b, t.smp, trace_samples(b, t));
}
// what the reader must return for the bytes of one trace
inline MTrace dec_trace(Bin const& b, HMap const& m, string const& bytes, size_t n_samples)
{
    MTrace t;
    bool le = is_le(b.endianness);
    int add = b.SEGY_rev_major_ver > 1 ? b.max_num_add_tr_headers : 0;
    for (int i = 0; i <= add && i < (int)m.size(); ++i)
        for (auto& p : m[i].second) {
            int w = vt_size(p.second.second);
            t.hdr[p.second.first] = fld_val(p.second.second, get(bytes, i * 240 + p.first, w, le));
        }
    Fmt f = fmt_of(b.format_code);
    for (size_t i = 0; i < n_samples; ++i)
        t.smp.push_back(smp_val(f, get(bytes, (add + 1) * 240 + i * f.width, f.width, le)));
    return t;
}

// ---- whole file, as written/read
struct MFile {
    vector<string> text; // first + extended
    Bin bin = {};
    HMap map;
    vector<MTrace> tr;
    vector<string> trailer;
    size_t gap = 0; // bytes between the headers and the first trace
    string bytes() const
    {
        string s = text[0] + enc_bin(bin);
        for (size_t i = 1; i < text.size(); ++i) s += text[i];
        s += string(gap, '\x5a');
        for (auto& t : tr) s += enc_trace(bin, map, t);
        for (auto& t : trailer) s += t;
        return s;
    }
    vector<size_t> trace_pos() const
    {
        vector<size_t> r;
        size_t p = 3600 + 3200 * (text.size() - 1) + gap;
        for (auto& t : tr) { r.push_back(p); p += enc_trace(bin, map, t).size(); }
        r.push_back(p);
        return r;
    }
    MTrace expected(size_t i) const
    {
        return dec_trace(bin, map, enc_trace(bin, map, tr[i]), trace_samples(bin, tr[i]));
    }
};

inline string val_str(Value const& v)
{
    return v.index() == 0 ? fmt("%lld", (long long)std::get<0>(v)) : fmt("%.17g", std::get<1>(v));
}
inline bool val_same(Value const& a, Value const& b)
{
    if (a.index() != b.index()) return false;
    return a.index() == 0 ? std::get<0>(a) == std::get<0>(b) : same(std::get<1>(a), std::get<1>(b));
}
inline string diff_hdr(Hdr const& want, Trace::Header const& got)
{
    auto keys = got.keys();
    for (auto& p : want) {
        auto v = got.get(p.first);
        if (!v) return "header " + p.first + " is missing";
        if (!val_same(*v, p.second))
            return "header " + p.first + " is " + val_str(*v) + " expected " + val_str(p.second);
    }
    if (keys.size() != want.size())
        for (auto& k : keys)
            if (!want.count(k)) return "unexpected header " + k;
    return "";
}
inline string diff_smp(vector<double> const& want, vector<double> const& got)
{
    if (want.size() != got.size()) return fmt("%zu samples expected %zu", got.size(), want.size());
    for (size_t i = 0; i < want.size(); ++i)
        if (!same(want[i], got[i])) return fmt("sample %zu is %.17g expected %.17g", i, got[i], want[i]);
    return "";
}
inline string diff_trace(MTrace const& want, Trace const& got)
{
    string d = diff_hdr(want.hdr, got.header_const());
    return d.empty() ? diff_smp(want.smp, got.samples()) : d;
}
inline string diff_text(vector<string> const& want, vector<string> const& got, char const* what)
{
    if (want.size() != got.size()) return fmt("%zu %s expected %zu", got.size(), what, want.size());
    for (size_t i = 0; i < want.size(); ++i)
        if (want[i] != got[i]) return fmt("%s %zu: ", what, i) + diff(want[i], got[i]);
    return "";
}
inline Trace mk(MTrace const& t) { return Trace(t.hdr, t.smp); }

// reading a whole file must give what the model says
inline void check_read(Ctx& c, string const& path, MFile const& f, HMap const* map = nullptr)
{
    sedaman::ISEGY r(path, map ? *map : f.map);
    c.step();
    string d = diff_text(f.text, r.text_headers(), "text headers");
    if (d.empty()) d = diff_text(f.trailer, r.trailer_stanzas(), "trailer stanzas");
    if (d.empty()) d = diff_bin(dec_bin(enc_bin(f.bin)), r.binary_header());
    if (!d.empty()) c.fail("read: " + d);
    for (size_t i = 0; i < f.tr.size(); ++i) {
        if (!r.has_trace()) c.fail(fmt("read: no trace %zu of %zu", i, f.tr.size()));
        Trace t = r.read_trace();
        c.step(2);
        d = diff_trace(f.expected(i), t);
        if (!d.empty()) c.fail(fmt("read: trace %zu: ", i) + d);
    }
    if (r.has_trace()) c.fail("read: a trace remains after the last one");
    c.step();
}

// ---- writers
inline string default_text(int rev)
{
    string s(CommonSEGY::default_text_header, 3200);
    return s;
}
struct Writer {
    std::unique_ptr<sedaman::OSEGY> w;
    Writer(int rev, string const& path, vector<string> const& text, Bin const& bin, vector<string> const& trailer, HMap const& map)
    {
        if (rev == 0) w = std::make_unique<sedaman::OSEGYRev0>(path, text.empty() ? string() : text[0], bin, map);
        else if (rev == 1) w = std::make_unique<sedaman::OSEGYRev1>(path, text, bin, map);
        else w = std::make_unique<sedaman::OSEGYRev2>(path, text, bin, trailer, map);
    }
    void write(MTrace const& t) { Trace x = mk(t); w->write_trace(x); }
    void close() { w.reset(); }
};
// the binary header a writer has to store for the one it is given (before any first-trace derivation)
inline Bin derived_bin(int rev, Bin b, size_t n_text, size_t n_trailer)
{
    if (b.format_code == 0) b.format_code = rev == 0 ? 1 : 5;
    if (rev == 0) return b;
    if (rev == 1) { b.SEGY_rev_major_ver = 1; b.SEGY_rev_minor_ver = 0; }
    else {
        if (b.SEGY_rev_major_ver < 2) { b.SEGY_rev_major_ver = 2; b.SEGY_rev_minor_ver = 0; }
        b.num_of_trailer_stanza = (int32_t)n_trailer;
        if (b.byte_off_of_first_tr) b.byte_off_of_first_tr = 3600 + 3200 * (n_text - 1);
    }
    b.ext_text_headers_num = (int16_t)(n_text - 1);
    return b;
}
inline string text_block(char ch, int k)
{
    string s(3200, ch);
    for (int i = 0; i < 3200; ++i) s[i] = (char)(ch + (i * 7 + k * 13) % 23);
    return s;
}
inline bool default_bin(int rev, Bin const& b)
{
    Bin z = {};
    z.format_code = b.format_code;
    for (auto& f : bin_fields()) if (f.get(z) != f.get(b)) return false;
    return b.format_code == 0 || b.format_code == (rev == 0 ? 1 : 5);
}
} // namespace segy
