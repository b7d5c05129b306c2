// Reference model of the SEG-D layout: tables of the fields of every header (position in half bytes, encoding) from
// which the expected values are decoded straight from the bytes of the file, sample formats, and a builder of records.
#pragma once
#include "explore.hpp"
#include "CommonSEGD.hpp"
#include "ISEGD.hpp"
#include "OSEGDRev2_1.hpp"
#include <array>
#include <cmath>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <variant>
#include <vector>

namespace segd {
using namespace mc;
using std::string;
using std::vector;
using std::map;
using std::pair;
using sedaman::CommonSEGD;
using sedaman::ISEGD;
using sedaman::Trace;
using VT = Trace::Header::ValueType;
using Value = Trace::Header::Value;
typedef vector<map<uint32_t, pair<string, VT>>> ExtMap;

// ------------------------------------------------------------------ bytes
inline int nib(string const& b, int i) { return (unsigned char)b[i / 2] >> (i % 2 ? 0 : 4) & 15; }
inline void set_nib(string& b, int i, int v)
{
    unsigned char x = b[i / 2];
    b[i / 2] = i % 2 ? (x & 0xf0) | v : (x & 0x0f) | v << 4;
}
inline uint64_t be(string const& b, int off, int n)
{
    uint64_t v = 0;
    for (int i = 0; i < n; ++i) v = v << 8 | (unsigned char)b[off + i];
    return v;
}
inline void set_be(string& b, int off, int n, uint64_t v)
{
    for (int i = n - 1; i >= 0; --i, v >>= 8) b[off + i] = (char)v;
}
// decimal digits from half byte i
inline void set_bcd(string& b, int i, int digits, uint64_t v)
{
    for (int k = digits - 1; k >= 0; --k, v /= 10) set_nib(b, i + k, v % 10);
}
inline uint64_t bcd(string const& b, int i, int digits)
{
    uint64_t v = 0;
    for (int k = 0; k < digits; ++k) v = v * 10 + nib(b, i + k);
    return v;
}
inline bool all_set(string const& b, int i, int digits)
{
    for (int k = 0; k < digits; ++k) if (nib(b, i + k) != 15) return false;
    return true;
}
inline int64_t sext(uint64_t v, int bytes)
{
    int sh = 64 - 8 * bytes;
    return (int64_t)(v << sh) >> sh;
}

// ------------------------------------------------------------------ fields
// value of a field: number (64 bits fit exactly) or text
struct Val {
    long double num = 0;
    string text;
    bool operator==(Val const& o) const { return num == o.num && text == o.text; }
    string str() const { return text.empty() ? fmt("%.20Lg", num) : "'" + hex(text) + "'"; }
};
template <class T> inline Val val(T v) { Val r; r.num = v; return r; }
template <size_t N> inline Val val(char const (&t)[N]) { Val r; r.text = string(t, N); return r; }
inline Val val(std::array<char, 27> const& t) { Val r; r.text = string(t.data(), 27); return r; }

enum Kind { BCD, U, I, FIX, DIV16, SCANS, X2, MP, POW2, TEXT, BCDX };
// off and len are in half bytes; BCDX: decimal, with an extended form when all half bytes are set (not compared then)
template <class T> struct Field {
    char const* name;
    Kind kind;
    int off, len;
    std::function<Val(T&)> get;
};
inline Val decode(string const& b, Kind k, int off, int len)
{
    Val r;
    int o = off / 2, n = len / 2;
    switch (k) {
    case BCD: case BCDX: r.num = bcd(b, off, len); break;
    case U:
        if (len == 1) r.num = nib(b, off);
        else r.num = be(b, o, n);
        break;
    case I: r.num = sext(be(b, o, n), n); break;
    case FIX: r.num = (long double)sext(be(b, o, 5), 5) / 65536; break;
    case DIV16: r.num = be(b, o, 1) / 16.0L; break;
    case SCANS: r.num = (long double)((uint64_t)be(b, o + 1, 1) << nib(b, off)); break;
    case X2: r.num = be(b, o, 2) * 2; break;
    case MP: r.num = (long double)(be(b, o, 2) & 0x7fff) / 1024; if (be(b, o, 2) & 0x8000) r.num = -r.num; break;
    case POW2: r.num = 1 << nib(b, off); break;
    case TEXT: r.text = b.substr(o, n); break;
    }
    return r;
}
template <class T> using Table = vector<Field<T>>;
#define F(T, kind, off, len, m) { #m, kind, off, len, [](T& h) { return val(h.m); } }
#define B(T, kind, off, len, m) { #m, kind, 2 * (off), 2 * (len), [](T& h) { return val(h.m); } }

inline Table<CommonSEGD::GeneralHeader> const& t_gh1()
{
    typedef CommonSEGD::GeneralHeader T;
    static Table<T> t {
        F(T, BCDX, 0, 4, file_number), F(T, BCD, 4, 4, format_code), F(T, BCD, 8, 12, gen_const), F(T, BCD, 20, 2, year),
        F(T, U, 22, 1, add_gen_hdr_blocks), F(T, BCD, 23, 3, day), F(T, BCD, 26, 2, hour), F(T, BCD, 28, 2, minute),
        F(T, BCD, 30, 2, second), F(T, BCD, 32, 2, manufac_code), F(T, BCD, 34, 4, manufac_num), F(T, BCD, 38, 6, bytes_per_scan),
        F(T, DIV16, 44, 2, base_scan_int), F(T, U, 46, 1, polarity), F(T, SCANS, 47, 3, scans_per_block), F(T, U, 50, 1, record_type),
        F(T, BCDX, 51, 3, record_length), F(T, BCD, 54, 2, scan_types_per_record), F(T, BCDX, 56, 2, channel_sets_per_scan_type),
        F(T, BCDX, 58, 2, skew_blocks), F(T, BCDX, 60, 2, extended_hdr_blocks), F(T, BCDX, 62, 2, external_hdr_blocks),
    };
    return t;
}
inline Table<CommonSEGD::GeneralHeader2> const& t_gh2_rev2()
{
    typedef CommonSEGD::GeneralHeader2 T;
    static Table<T> t {
        B(T, U, 0, 3, expanded_file_num), B(T, U, 3, 2, ext_ch_sets_per_scan_type), B(T, U, 5, 2, extended_hdr_blocks),
        B(T, U, 7, 2, external_hdr_blocks), B(T, U, 10, 1, segd_rev_major), B(T, U, 11, 1, segd_rev_minor),
        B(T, U, 12, 2, gen_trailer_num_of_blocks), B(T, U, 14, 3, ext_record_len), B(T, U, 18, 1, gen_hdr_block_num),
        B(T, U, 20, 2, sequence_number),
    };
    return t;
}
inline Table<CommonSEGD::GeneralHeader2> const& t_gh2_rev3()
{
    typedef CommonSEGD::GeneralHeader2 T;
    static Table<T> t {
        B(T, U, 0, 3, expanded_file_num), B(T, U, 3, 2, ext_ch_sets_per_scan_type), B(T, U, 5, 3, extended_hdr_blocks),
        B(T, U, 8, 2, extended_skew_blocks), B(T, U, 10, 1, segd_rev_major), B(T, U, 11, 1, segd_rev_minor),
        B(T, U, 12, 4, gen_trailer_num_of_blocks), B(T, U, 16, 4, ext_record_len), B(T, U, 20, 2, record_set_number),
        B(T, U, 22, 2, ext_num_add_blks_in_gen_hdr), B(T, U, 24, 3, dominant_sampling_int), B(T, U, 27, 3, external_hdr_blocks),
        B(T, U, 31, 1, gen_hdr_block_num),
    };
    return t;
}
inline Table<CommonSEGD::GeneralHeader3> const& t_gh3()
{
    typedef CommonSEGD::GeneralHeader3 T;
    static Table<T> t {
        B(T, U, 0, 8, time_zero), B(T, U, 8, 8, record_size), B(T, U, 16, 8, data_size), B(T, U, 24, 4, header_size),
        B(T, U, 28, 1, extd_rec_mode), B(T, U, 29, 1, rel_time_mode), B(T, U, 31, 1, gen_hdr_block_num),
    };
    return t;
}
inline Table<CommonSEGD::GeneralHeaderN> const& t_ghn()
{
    typedef CommonSEGD::GeneralHeaderN T;
    static Table<T> t {
        B(T, U, 0, 3, expanded_file_number), B(T, FIX, 3, 5, sou_line_num), B(T, FIX, 8, 5, sou_point_num), B(T, U, 13, 1, sou_point_index),
        B(T, U, 14, 1, phase_control), B(T, U, 15, 1, type_vibrator), B(T, I, 16, 2, phase_angle), B(T, U, 18, 1, gen_hdr_block_num),
        B(T, U, 19, 1, sou_set_num),
    };
    return t;
}
inline Table<CommonSEGD::ChannelSetHeader> const& t_set2()
{
    typedef CommonSEGD::ChannelSetHeader T;
    static Table<T> t {
        F(T, BCD, 0, 2, scan_type_number), F(T, BCDX, 2, 2, channel_set_number), F(T, X2, 4, 4, channel_set_start_time),
        F(T, X2, 8, 4, channel_set_end_time), F(T, MP, 12, 4, descale_multiplier), F(T, BCD, 16, 4, number_of_channels),
        F(T, U, 20, 1, channel_type), F(T, POW2, 22, 1, subscans_per_ch_set), F(T, U, 23, 1, channel_gain),
        F(T, BCD, 24, 4, alias_filter_freq), F(T, BCD, 28, 4, alias_filter_slope), F(T, BCD, 32, 4, low_cut_filter_freq),
        F(T, BCD, 36, 4, low_cut_filter_slope), F(T, BCD, 40, 4, first_notch_filter), F(T, BCD, 44, 4, second_notch_filter),
        F(T, BCD, 48, 4, third_notch_filter), F(T, U, 52, 4, ext_ch_set_num), F(T, U, 56, 1, ext_hdr_flag), F(T, U, 57, 1, trc_hdr_ext),
        F(T, U, 58, 2, vert_stack), F(T, U, 60, 2, streamer_no), F(T, U, 62, 2, array_forming),
    };
    return t;
}
inline Table<CommonSEGD::ChannelSetHeader> const& t_set3()
{
    typedef CommonSEGD::ChannelSetHeader T;
#define O(kind, off, len, m) { #m, kind, 2 * (off), 2 * (len), [](T& h) { auto v = h.m(); if (!v) { Val r; r.text = "absent"; return r; } return val(*v); } }
    static Table<T> t {
        B(T, BCD, 0, 1, scan_type_number), B(T, U, 1, 2, channel_set_number), B(T, U, 3, 1, channel_type),
        B(T, U, 4, 4, channel_set_start_time), B(T, U, 8, 4, channel_set_end_time), O(U, 12, 4, number_of_samples),
        B(T, U, 16, 4, descale_multiplier), B(T, U, 20, 3, number_of_channels), O(U, 23, 3, samp_int), B(T, U, 26, 1, array_forming),
        B(T, U, 27, 1, trc_hdr_ext), F(T, U, 56, 1, ext_hdr_flag), F(T, U, 57, 1, channel_gain), B(T, U, 29, 1, vert_stack),
        B(T, U, 30, 1, streamer_no), B(T, U, 32, 4, alias_filter_freq), B(T, U, 36, 4, low_cut_filter_freq),
        B(T, U, 40, 4, alias_filter_slope), B(T, U, 44, 4, low_cut_filter_slope), B(T, U, 48, 4, first_notch_filter),
        B(T, U, 52, 4, second_notch_filter), B(T, U, 56, 4, third_notch_filter), O(U, 60, 1, filter_phase), O(U, 61, 1, physical_unit),
        O(U, 64, 4, filter_delay), O(TEXT, 68, 27, description),
    };
#undef O
    return t;
}
// first field that differs, as text
template <class T> string diff_fields(Table<T> const& t, string const& b, T h, string const& what)
{
    for (auto& f : t) {
        if (f.kind == BCDX && all_set(b, f.off, f.len)) continue;
        Val want = decode(b, f.kind, f.off, f.len), got = f.get(h);
        if (!(want == got)) return what + " " + f.name + ": want " + want.str() + ", got " + got.str() + " (block " + hex(b, 96) + ")";
    }
    return "";
}

// ------------------------------------------------------------------ optional blocks of revision 3
struct Block {
    char const* name;
    int type;
    // text of the first difference; bytes == nullptr: the block must be absent
    std::function<string(ISEGD&, string const* bytes)> diff;
    // half bytes that hold decimal digits
    vector<int> digits;
};
template <class T> Block block(char const* name, int type, std::optional<T> (ISEGD::*get)(), Table<T> t)
{
    t.push_back(B(T, U, 31, 1, gen_hdr_block_type));
    vector<int> dig;
    for (auto& f : t) if (f.kind == BCD) for (int i = 0; i < f.len; ++i) dig.push_back(f.off + i);
    return { name, type, [t, get, name](ISEGD& r, string const* b) -> string {
        std::optional<T> h = (r.*get)();
        if (!b) return h ? string(name) + " block is present although the record has none" : "";
        if (!h) return string(name) + " block is absent";
        return diff_fields(t, *b, *h, name);
    }, dig };
}
#define SRC(T) B(T, U, 0, 3, expanded_file_number), B(T, FIX, 3, 5, sou_line_num), B(T, FIX, 8, 5, sou_point_num), B(T, U, 13, 1, sou_point_index), \
    B(T, U, 18, 1, source_id), B(T, U, 19, 1, source_set_num), B(T, U, 20, 1, reshoot_idx), B(T, U, 21, 1, group_idx), B(T, U, 22, 1, depth_idx), \
    B(T, U, 23, 2, offset_crossline), B(T, U, 25, 2, offset_inline), B(T, U, 27, 2, size), B(T, U, 29, 2, offset_depth)
inline vector<Block> const& blocks()
{
    static vector<Block> v;
    if (!v.empty()) return v;
    typedef CommonSEGD C;
    { typedef C::GeneralHeaderVes T; v.push_back(block<T>("vessel", 0x10, &ISEGD::general_header_vessel_crew_id,
        { B(T, TEXT, 0, 3, abbr_vessel_crew_name), B(T, TEXT, 3, 28, vessel_crew_name) })); }
    { typedef C::GeneralHeaderSur T; v.push_back(block<T>("survey area", 0x11, &ISEGD::general_header_survey_name, { B(T, TEXT, 0, 31, survey_area_name) })); }
    { typedef C::GeneralHeaderCli T; v.push_back(block<T>("client", 0x12, &ISEGD::general_header_client_name, { B(T, TEXT, 0, 31, client_name) })); }
    { typedef C::GeneralHeaderJob T; v.push_back(block<T>("job", 0x13, &ISEGD::general_header_job_id,
        { B(T, TEXT, 0, 5, abbr_job_id), B(T, TEXT, 5, 26, job_id) })); }
    { typedef C::GeneralHeaderLin T; v.push_back(block<T>("line", 0x14, &ISEGD::general_header_line_id,
        { B(T, TEXT, 0, 7, line_abbr), B(T, TEXT, 7, 24, line_id) })); }
    { typedef C::GeneralHeaderVib T; v.push_back(block<T>("vibrator", 0x15, &ISEGD::general_header_vibrator_info,
        { SRC(T), B(T, U, 14, 1, phase_control), B(T, U, 15, 1, type_vibrator), B(T, I, 16, 2, phase_angle) })); }
    { typedef C::GeneralHeaderExp T; v.push_back(block<T>("explosive", 0x16, &ISEGD::general_header_explosive_info,
        { SRC(T), B(T, U, 14, 2, depth), B(T, U, 16, 1, charge_length), B(T, U, 17, 1, soil_type) })); }
    { typedef C::GeneralHeaderAir T; v.push_back(block<T>("airgun", 0x17, &ISEGD::general_header_airgun_info,
        { SRC(T), B(T, U, 14, 2, depth), B(T, U, 16, 2, air_pressure) })); }
    { typedef C::GeneralHeaderWat T; v.push_back(block<T>("watergun", 0x18, &ISEGD::general_header_watergun_info,
        { SRC(T), B(T, U, 14, 2, depth), B(T, U, 16, 2, air_pressure) })); }
    { typedef C::GeneralHeaderEle T; v.push_back(block<T>("electromagnetic", 0x19, &ISEGD::general_header_electromagnetic_info,
        { SRC(T), B(T, U, 14, 1, source_type), B(T, U, 15, 3, moment) })); }
    { typedef C::GeneralHeaderOth T; v.push_back(block<T>("other source", 0x1f, &ISEGD::general_header_other_source_info, { SRC(T) })); }
    { typedef C::GeneralHeaderAdd T; v.push_back(block<T>("additional source", 0x20, &ISEGD::general_header_add_source_info,
        { B(T, U, 0, 8, time), B(T, U, 8, 1, source_status), B(T, U, 9, 1, source_id), B(T, U, 10, 1, source_moving), B(T, TEXT, 11, 20, error_description) })); }
    { typedef C::GeneralHeaderSaux T;
#define S(n) B(T, BCD, 6 * n - 5, 1, scan_type_num_##n), B(T, U, 6 * n - 4, 2, ch_set_num_##n), B(T, U, 6 * n - 2, 3, trace_num_##n)
        v.push_back(block<T>("auxiliary channel reference", 0x21, &ISEGD::general_header_sou_aux_chan_ref, { B(T, U, 0, 1, source_id), S(1), S(2), S(3), S(4), S(5) }));
#undef S
    }
    { typedef C::GeneralHeaderSen T; v.push_back(block<T>("sensor info", 0x41, &ISEGD::general_header_sen_info_hdr_ext_blk,
        { B(T, U, 0, 8, instrument_test_time), B(T, U, 8, 4, sensor_sensitivity), B(T, U, 12, 1, instr_test_result), B(T, TEXT, 13, 18, serial_number) })); }
    { typedef C::GeneralHeaderSCa T; v.push_back(block<T>("sensor calibration", 0x43, &ISEGD::general_header_sen_calib_blk,
        { B(T, U, 0, 4, freq1), B(T, U, 4, 4, amp1), B(T, U, 8, 4, phase1), B(T, U, 12, 4, freq2), B(T, U, 16, 4, amp2), B(T, U, 20, 4, phase2), B(T, U, 24, 1, calib_applied) })); }
    { typedef C::GeneralHeaderTim T; v.push_back(block<T>("time drift", 0x44, &ISEGD::general_header_time_drift_blk,
        { B(T, U, 0, 8, time_of_depl), B(T, U, 8, 8, time_of_retr), B(T, U, 16, 4, timer_offset_depl), B(T, U, 20, 4, time_offset_retr), B(T, U, 24, 1, timedrift_corr), B(T, U, 25, 1, corr_method) })); }
    { typedef C::GeneralHeaderElSR T; v.push_back(block<T>("electromagnetic source and receiver", 0x45, &ISEGD::general_header_elemag_src_rec_desc_blk,
        { B(T, U, 0, 3, equip_dim_x), B(T, U, 3, 3, equip_dim_y), B(T, U, 6, 3, equip_dim_z), B(T, U, 9, 1, pos_term), B(T, U, 10, 3, equip_offset_x), B(T, U, 13, 3, equip_offset_y), B(T, U, 16, 3, equip_offset_z) })); }
    { typedef C::GeneralHeaderPos1 T; v.push_back(block<T>("position 1", 0x50, &ISEGD::general_header_position_blk_1,
        { B(T, U, 0, 8, time_of_position), B(T, U, 8, 8, time_of_measurement), B(T, U, 16, 4, vert_error), B(T, U, 20, 4, hor_error_semi_major), B(T, U, 24, 4, hor_error_semi_minor), B(T, U, 28, 2, hor_error_orientation), B(T, U, 30, 1, position_type) })); }
    { typedef C::GeneralHeaderPos2 T; v.push_back(block<T>("position 2", 0x51, &ISEGD::general_header_position_blk_2,
        { B(T, U, 0, 8, crs_a_coord1), B(T, U, 8, 8, crs_a_coord2), B(T, U, 16, 8, crs_a_coord3), B(T, U, 24, 2, crs_a_crsref), B(T, U, 26, 1, pos1_valid), B(T, U, 27, 1, pos1_quality) })); }
    { typedef C::GeneralHeaderPos3 T; v.push_back(block<T>("position 3", 0x52, &ISEGD::general_header_position_blk_3,
        { B(T, U, 0, 8, crs_b_coord1), B(T, U, 8, 8, crs_b_coord2), B(T, U, 16, 8, crs_b_coord3), B(T, U, 24, 2, crs_b_crsref), B(T, U, 26, 1, pos2_valid), B(T, U, 27, 1, pos2_quality) })); }
    { typedef C::GeneralHeaderCoord T; v.push_back(block<T>("coordinate reference system", 0x55, &ISEGD::general_header_coord_ref_blk, { B(T, TEXT, 0, 31, crs) })); }
    { typedef C::GeneralHeaderRel T; v.push_back(block<T>("relative position", 0x56, &ISEGD::general_header_relative_pos_blk,
        { B(T, U, 0, 4, offset_east), B(T, U, 4, 4, offset_north), B(T, U, 8, 4, offset_vert), B(T, TEXT, 12, 19, description) })); }
    { typedef C::GeneralHeaderOri T; v.push_back(block<T>("orientation", 0x60, &ISEGD::general_header_orient_hdr_blk,
        { B(T, U, 0, 4, rot_x), B(T, U, 4, 4, rot_y), B(T, U, 8, 4, rot_z), B(T, U, 12, 4, ref_orientation), B(T, U, 16, 8, time_stamp), B(T, U, 24, 1, ori_type), B(T, U, 25, 1, ref_orient_valid), B(T, U, 26, 1, rot_applied), B(T, U, 27, 1, rot_north_applied) })); }
    { typedef C::GeneralHeaderMeas T; v.push_back(block<T>("measurement", 0x61, &ISEGD::general_header_measurement_blk,
        { B(T, U, 0, 8, timestamp), B(T, U, 8, 4, measurement_value), B(T, U, 12, 4, maximum_value), B(T, U, 16, 4, minimum_value), B(T, U, 20, 2, quantity_class), B(T, U, 22, 2, unit_of_measure), B(T, U, 24, 2, measurement_description) })); }
    return v;
}
#undef SRC
#undef F
#undef B

// ------------------------------------------------------------------ samples
static vector<int> const all_formats { 8015, 8022, 8024, 8036, 8038, 8042, 8044, 8048, 8058, 8080, 9036, 9038, 9058, 9080 };
// bits of one sample (8015: exponent and word)
inline int fmt_bits(int f)
{
    switch (f) {
    case 8015: return 20;
    case 8022: case 8042: return 8;
    case 8024: case 8044: return 16;
    case 8036: case 9036: return 24;
    case 8080: case 9080: return 64;
    default: return 32;
    }
}
// value of a bit pattern
inline double dec_sample(int f, uint64_t v)
{
    switch (f) {
    case 8015: {
        int e = v >> 16 & 15, w = v & 0xffff;
        return w & 0x8000 ? -ldexp((double)((w ^ 0xffff) >> 1), e - 14) : ldexp((double)(w >> 1), e - 14);
    }
    case 8022: { int e = v >> 4 & 7; return v & 0x80 ? -ldexp((double)(15 - (v & 15)), 2 * e - 4) : ldexp((double)(v & 15), 2 * e - 4); }
    case 8024: { int e = v >> 12 & 7; return v & 0x8000 ? -ldexp((double)(4095 - (v & 4095)), 2 * e - 12) : ldexp((double)(v & 4095), 2 * e - 12); }
    case 8042: { int e = v >> 5 & 3; double m = ldexp((double)(v & 31), 4 * e - 5); return v & 0x80 ? -m : m; }
    case 8044: { int e = v >> 13 & 3; double m = ldexp((double)(v & 8191), 4 * e - 13); return v & 0x8000 ? -m : m; }
    case 8036: case 9036: return (double)sext(v, 3);
    case 8038: case 9038: return (double)(int32_t)(uint32_t)v;
    case 8048: { double m = ldexp((double)(v & 0xffffff), 4 * ((int)(v >> 24 & 127) - 64) - 24); return v & 0x80000000u ? -m : m; }
    case 8058: case 9058: { uint32_t u = v; float x; memcpy(&x, &u, 4); return x; }
    default: { double x; memcpy(&x, &v, 8); return x; }
    }
}
// bytes of a sequence of patterns (8015: groups of four, the last one filled with zeros)
inline string enc_samples(int f, vector<uint64_t> p)
{
    string r;
    if (f == 8015) {
        while (p.size() % 4) p.push_back(0);
        for (size_t i = 0; i < p.size(); i += 4) {
            char g[10];
            g[0] = (p[i] >> 16 & 15) << 4 | (p[i + 1] >> 16 & 15);
            g[1] = (p[i + 2] >> 16 & 15) << 4 | (p[i + 3] >> 16 & 15);
            for (int k = 0; k < 4; ++k) { g[2 + 2 * k] = p[i + k] >> 8; g[3 + 2 * k] = p[i + k]; }
            r.append(g, 10);
        }
        return r;
    }
    int n = fmt_bits(f) / 8;
    r.resize(p.size() * n);
    for (size_t i = 0; i < p.size(); ++i)
        for (int k = 0; k < n; ++k) r[i * n + k] = (char)(p[i] >> 8 * (f >= 9000 ? k : n - 1 - k));
    return r;
}
// a few patterns that differ in every byte
inline uint64_t some_bits(int f, unsigned i)
{
    uint64_t v = (i + 1) * 0x9e3779b97f4a7c15ull;
    v ^= v >> 29;
    switch (f) {
    case 8080: case 9080: return (v & 0x800fffffffffffffull) | 0x3ff0000000000000ull + ((uint64_t)(i % 40) << 52);
    case 8058: case 9058: return (v & 0x807fffff) | 0x3f800000u + (i % 40 << 23);
    case 8048: return (v & 0x80ffffff) | 0x00100000 | (0x3c + i % 9) << 24;
    default: return v >> 7 & ((1ull << fmt_bits(f)) - 1);
    }
}

// ------------------------------------------------------------------ records
struct MTrace {
    string hdr = string(20, '\0');
    vector<string> ext;
    vector<uint64_t> bits;
    double scale = 1;
    string bytes(int f) const
    {
        string r = hdr;
        for (auto& e : ext) r += e;
        return r + enc_samples(f, bits);
    }
};
struct Record {
    int rev = 2;       // 0: no second general header
    int format = 8058;
    string gh1 = string(32, '\0'), gh2 = string(32, '\0'), gh3 = string(32, '\0');
    vector<string> add;                     // further general header blocks
    vector<vector<string>> sets;            // channel set headers by scan type
    int skew = 0;                           // blocks after each scan type
    vector<string> extended, external;
    vector<MTrace> tr;
    int trailer = 0;
    bool ext_counts = false;                // counts through their extended form
    char skew_byte = '\x5a';
    // sets the counts in the headers
    void fix()
    {
        int nadd = rev == 0 ? 0 : (rev > 2 ? 2 : 1) + (int)add.size();
        set_bcd(gh1, 4, 4, format);
        set_nib(gh1, 22, ext_counts && rev > 2 ? 15 : nadd);
        set_bcd(gh1, 54, 2, sets.size());
        int ns = sets.empty() ? 0 : (int)sets[0].size();
        auto count = [&](int off, int v) {
            if (ext_counts || v > 99) { set_nib(gh1, off, 15); set_nib(gh1, off + 1, 15); }
            else set_bcd(gh1, off, 2, v);
        };
        count(56, ns);
        if (rev > 2) count(58, skew); else set_bcd(gh1, 58, 2, skew);
        count(60, (int)extended.size());
        count(62, (int)external.size());
        if (rev) {
            gh2[10] = rev; // minor is free
            bool e = ext_counts;
            if (e || ns > 99) set_be(gh2, 3, 2, ns);
            if (rev < 3) {
                if (e || extended.size() > 99) set_be(gh2, 5, 2, extended.size());
                if (e || external.size() > 99) set_be(gh2, 7, 2, external.size());
                set_be(gh2, 12, 2, trailer);
            } else {
                if (e || extended.size() > 99) set_be(gh2, 5, 3, extended.size());
                if (e || external.size() > 99) set_be(gh2, 27, 3, external.size());
                if (e || skew > 99) set_be(gh2, 8, 2, skew);
                set_be(gh2, 12, 4, trailer);
                if (e) set_be(gh2, 22, 2, nadd);
            }
        }
    }
    string headers() const
    {
        string r = gh1;
        if (rev) r += gh2;
        if (rev > 2) r += gh3;
        for (auto& b : add) r += b;
        for (auto& s : sets) {
            for (auto& h : s) r += h;
            r += string(32 * skew, skew_byte);
        }
        for (auto& b : extended) r += b;
        for (auto& b : external) r += b;
        return r;
    }
    string bytes() const
    {
        string r = headers();
        for (auto& t : tr) r += t.bytes(format);
        return r + string(32 * trailer, '\x6b');
    }
    // number of traces the channel sets declare
    size_t channels() const
    {
        size_t n = 0;
        for (auto& s : sets) for (auto& h : s) n += rev > 2 ? be(h, 20, 3) : bcd(h, 16, 4);
        return n;
    }
};
// a block of text that differs from byte to byte and from block to block
inline string filler(int n, unsigned seed)
{
    string r(n, '\0');
    for (int i = 0; i < n; ++i) r[i] = (char)(seed * 37 + i * 11 + (i >> 2) + 1);
    return r;
}
inline string make_set(int rev, int scan, int num, int chans, int samples, unsigned seed = 0)
{
    if (rev > 2) {
        string h = filler(96, seed);
        set_bcd(h, 0, 2, scan);
        set_be(h, 1, 2, num);
        set_be(h, 12, 4, samples);
        set_be(h, 16, 4, 0);
        set_be(h, 20, 3, chans);
        h[95] = 0x30;
        return h;
    }
    string h(32, '\0');
    set_bcd(h, 0, 2, scan);
    set_bcd(h, 2, 2, num % 100);
    if (num > 99) { set_nib(h, 2, 15); set_nib(h, 3, 15); set_be(h, 26, 2, num); }
    set_be(h, 2, 2, 100 + seed);
    set_be(h, 4, 2, 3000 + seed);
    set_bcd(h, 16, 4, chans);
    set_nib(h, 20, 1 + seed % 8);
    int e = 0;
    while ((1 << e) < samples) ++e;
    set_nib(h, 22, e);
    set_nib(h, 23, 3 + seed % 5);
    for (int i = 0; i < 7; ++i) set_bcd(h, 24 + 4 * i, 4, 1000 + 111 * i + seed);
    set_nib(h, 56, 2); set_nib(h, 57, seed % 4);
    h[29] = 1 + seed; h[30] = 7; h[31] = 9;
    return h;
}
inline MTrace make_trace(Record const& r, int scan, int set, int chan, vector<uint64_t> bits, int n_ext, unsigned seed = 0)
{
    MTrace t;
    t.bits = bits;
    set_bcd(t.hdr, 0, 4, 100 + seed);
    set_bcd(t.hdr, 4, 2, scan);
    if (set > 99) { set_nib(t.hdr, 6, 15); set_nib(t.hdr, 7, 15); set_be(t.hdr, 15, 2, set); }
    else set_bcd(t.hdr, 6, 2, set);
    set_bcd(t.hdr, 8, 4, chan);
    set_be(t.hdr, 6, 3, 0x100 + seed);
    t.hdr[9] = n_ext;
    t.hdr[10] = 5 + seed;
    t.hdr[11] = seed % 3;
    set_be(t.hdr, 12, 3, 0x10203 + seed);
    for (int i = 0; i < n_ext; ++i) {
        string e = filler(32, 7 * i + seed + chan);
        if (i == 0) {
            set_be(e, 0, 3, 10 + seed); set_be(e, 3, 3, 20 + chan);
            if (r.rev < 3) set_be(e, 7, 3, bits.size());
            if (r.rev > 1) for (int k = 10; k < 20; ++k) e[k] = 0;
            if (r.rev > 2) set_be(e, 24, 4, bits.size());
        }
        t.ext.push_back(e);
    }
    if (r.rev > 2 && be(r.sets[scan - 1][set - 1], 16, 4)) t.scale = ldexp(1.0, (int)be(r.sets[scan - 1][set - 1], 16, 4));
    if (r.rev < 3) t.scale = pow(2.0, (double)decode(r.sets[scan - 1][set - 1], MP, 12, 4).num);
    return t;
}
// value of a mapped field of an extension block
inline Value dec_value(VT t, string const& b, int o)
{
    switch (t) {
    case VT::int8_t: return sext(be(b, o, 1), 1);
    case VT::uint8_t: return (int64_t)be(b, o, 1);
    case VT::int16_t: return sext(be(b, o, 2), 2);
    case VT::uint16_t: return (int64_t)be(b, o, 2);
    case VT::int24_t: return sext(be(b, o, 3), 3);
    case VT::uint24_t: return (int64_t)be(b, o, 3);
    case VT::int32_t: return sext(be(b, o, 4), 4);
    case VT::uint32_t: return (int64_t)be(b, o, 4);
    case VT::int64_t: case VT::uint64_t: return (int64_t)be(b, o, 8);
    case VT::ibm: return dec_sample(8048, be(b, o, 4));
    case VT::ieee_single: return dec_sample(8058, be(b, o, 4));
    default: return dec_sample(8080, be(b, o, 8));
    }
}
inline int vt_size(VT t)
{
    static int const s[] { 1, 1, 2, 2, 3, 3, 4, 4, 8, 8, 4, 4, 8 };
    return s[(int)t];
}
// header of a trace as the reader should deliver it
inline map<string, Value> dec_trace_hdr(int rev, MTrace const& t, ExtMap const& m)
{
    map<string, Value> h;
    string const& b = t.hdr;
    h["FFID"] = (int64_t)bcd(b, 0, 4);
    h["SCAN_TYPE_NUM"] = (int64_t)bcd(b, 4, 2);
    h["CH_SET_NUM"] = (int64_t)bcd(b, 6, 2);
    h["CHAN"] = (int64_t)bcd(b, 8, 4);
    h["FIRST_TIMING_WORD"] = be(b, 6, 3) / 256.0;
    h["TR_HDR_EXT"] = (int64_t)be(b, 9, 1);
    h["SAMPLE_SKEW"] = be(b, 10, 1) / 256.0;
    h["TRACE_EDIT"] = (int64_t)be(b, 11, 1);
    h["TIME_BREAK_WIN"] = be(b, 12, 3) / 256.0;
    if (be(b, 15, 2)) h["CH_SET_NUM"] = (int64_t)be(b, 15, 2);
    if (be(b, 17, 3)) h["FFID"] = (int64_t)be(b, 17, 3);
    for (size_t i = 0; i < t.ext.size(); ++i) {
        string const& e = t.ext[i];
        if (!m.empty()) {
            if (i < m.size()) for (auto& f : m[i]) h[f.second.first] = dec_value(f.second.second, e, f.first);
        } else if (i == 0) {
            h["R_LINE"] = (int64_t)be(e, 0, 3);
            h["R_POINT"] = (int64_t)be(e, 3, 3);
            h["R_POINT_IDX"] = (int64_t)be(e, 6, 1);
            if (rev < 3) h["SAMP_NUM"] = (int64_t)be(e, 7, 3);
            else {
                h["RESHOOT_IDX"] = (int64_t)be(e, 7, 1); h["GROUP_IDX"] = (int64_t)be(e, 8, 1); h["DEPTH_IDX"] = (int64_t)be(e, 9, 1);
            }
            if (rev > 1) {
                if (be(e, 10, 5)) h["R_LINE"] = be(e, 10, 5) / 65536.0;
                if (be(e, 15, 5)) h["R_POINT"] = be(e, 15, 5) / 65536.0;
                h["SENSOR_TYPE"] = (int64_t)be(e, 20, 1);
            }
            if (rev > 2) {
                if (all_set(b, 8, 4)) h["CHAN"] = (int64_t)be(e, 21, 3);
                h["SAMP_NUM"] = (int64_t)be(e, 24, 4);
                h["SENSOR_MOVING"] = (int64_t)be(e, 28, 1);
                h["PHYSICAL_UNIT"] = (int64_t)be(e, 30, 1);
            }
        }
    }
    return h;
}
inline string str(Value const& v)
{
    if (auto i = std::get_if<int64_t>(&v)) return fmt("%lld", (long long)*i);
    return fmt("%.17g (real)", std::get<double>(v));
}
inline bool equal(Value const& a, Value const& b)
{
    if (a.index() != b.index()) return false;
    if (a.index()) return same(std::get<double>(a), std::get<double>(b));
    return std::get<int64_t>(a) == std::get<int64_t>(b);
}
inline string diff_hdr(map<string, Value> const& want, Trace const& t)
{
    auto& h = t.header_const();
    for (auto& w : want) {
        auto g = h.get(w.first);
        if (!g) return "header " + w.first + " is absent, want " + str(w.second);
        if (!equal(*g, w.second)) return "header " + w.first + ": want " + str(w.second) + ", got " + str(*g);
    }
    auto k = h.keys();
    if (k.size() != want.size()) {
        for (auto& n : k) if (!want.count(n)) return "unexpected header " + n;
        return "a header is listed twice";
    }
    return "";
}
// samples are exact when scaled by a power of two, otherwise within a few units of the last place
inline bool near_scaled(double want, double got, bool exact)
{
    if (same(want, got)) return true;
    if (exact || want != want || std::isinf(want)) return false;
    return fabs(want - got) <= 4e-15 * fabs(want);
}
inline string diff_samples(int f, MTrace const& m, vector<double> const& s)
{
    if (s.size() != m.bits.size()) return fmt("%zu samples instead of %zu", s.size(), m.bits.size());
    int e;
    bool exact = frexp(m.scale, &e) == 0.5;
    for (size_t i = 0; i < s.size(); ++i) {
        double want = dec_sample(f, m.bits[i]) * m.scale;
        if (!near_scaled(want, s[i], exact))
            return fmt("format %d sample %zu (bits %llx, scale %.17g): want %.17g, got %.17g", f, i, (unsigned long long)m.bits[i], m.scale, want, s[i]);
    }
    return "";
}
inline string diff_trace(Record const& r, MTrace const& m, Trace const& t, ExtMap const& em = {})
{
    string d = diff_hdr(dec_trace_hdr(r.rev, m, em), t);
    return d.empty() ? diff_samples(r.format, m, t.samples()) : d;
}
// compares every header of the record
inline string diff_headers(Record const& m, ISEGD& r)
{
    string d = diff_fields(t_gh1(), m.gh1, r.general_header(), "general header 1");
    if (!d.empty()) return d;
    auto g2 = r.general_header2();
    if (!!g2 != (m.rev > 0)) return g2 ? "second general header is present" : "second general header is absent";
    if (g2 && !(d = diff_fields(m.rev > 2 ? t_gh2_rev3() : t_gh2_rev2(), m.gh2, *g2, "general header 2")).empty()) return d;
    auto g3 = r.general_header3();
    if (!!g3 != (m.rev > 2)) return g3 ? "third general header is present" : "third general header is absent";
    if (g3 && !(d = diff_fields(t_gh3(), m.gh3, *g3, "general header 3")).empty()) return d;
    auto n = r.general_headerN();
    size_t nn = m.rev == 1 || m.rev == 2 ? m.add.size() : 0;
    if (n.size() != nn) return fmt("%zu further general headers instead of %zu", n.size(), nn);
    // listed by block number
    map<int, string> by_num;
    if (nn) for (auto& b : m.add) by_num[(unsigned char)b[18]] = b;
    size_t i = 0;
    for (auto& b : by_num) {
        if (!(d = diff_fields(t_ghn(), b.second, n[i], fmt("general header %d", b.first))).empty()) return d;
        ++i;
    }
    for (auto& b : blocks()) {
        string const* p = nullptr;
        if (m.rev > 2) for (auto& a : m.add) if ((unsigned char)a[31] == b.type) p = &a;
        if (!(d = b.diff(r, p)).empty()) return d;
    }
    auto const& cs = r.channel_set_headers();
    if (cs.size() != m.sets.size()) return fmt("%zu scan types instead of %zu", cs.size(), m.sets.size());
    for (size_t s = 0; s < cs.size(); ++s) {
        if (cs[s].size() != m.sets[s].size()) return fmt("%zu channel sets instead of %zu", cs[s].size(), m.sets[s].size());
        for (size_t k = 0; k < cs[s].size(); ++k) {
            auto h = cs[s][k];
            string what = fmt("channel set %zu/%zu", s + 1, k + 1);
            if (!(d = diff_fields(m.rev > 2 ? t_set3() : t_set2(), m.sets[s][k], h, what)).empty()) return d;
            if (m.rev < 3 && (h.number_of_samples() || h.samp_int() || h.filter_phase() || h.physical_unit() || h.filter_delay() || h.description()))
                return what + ": a field of revision 3 is reported as present";
        }
    }
    auto blk = [](vector<string> const& want, vector<vector<char>> const& got, char const* what) -> string {
        if (want.size() != got.size()) return fmt("%zu %s blocks instead of %zu", got.size(), what, want.size());
        for (size_t i = 0; i < want.size(); ++i)
            if (string(got[i].begin(), got[i].end()) != want[i]) return fmt("%s block %zu: ", what, i) + diff(want[i], string(got[i].begin(), got[i].end()));
        return "";
    };
    if (!(d = blk(m.extended, r.extended_headers(), "extended")).empty()) return d;
    return blk(m.external, r.external_headers(), "external");
}
// shape of a record; all values differ between records with different seed
struct Shape {
    int rev = 2, format = 8058, scans = 1, sets = 1, chans = 1, samples = 1, skew = 0, extended = 0, external = 0, trailer = 0, add = 0, n_ext = 0;
    bool ext_counts = false;
    unsigned seed = 0;
};
inline Record build(Shape const& s)
{
    Record r;
    r.rev = s.rev; r.format = s.format; r.skew = s.skew; r.trailer = s.trailer; r.ext_counts = s.ext_counts;
    unsigned x = s.seed;
    set_bcd(r.gh1, 0, 4, 100 + x);
    set_bcd(r.gh1, 8, 12, 10203040506ull + x);
    set_bcd(r.gh1, 20, 2, 21); set_bcd(r.gh1, 23, 3, 123 + x); set_bcd(r.gh1, 26, 2, 11); set_bcd(r.gh1, 28, 2, 22); set_bcd(r.gh1, 30, 2, 33 + x);
    set_bcd(r.gh1, 32, 2, 13); set_bcd(r.gh1, 34, 4, 4321); set_bcd(r.gh1, 38, 6, 24 + x);
    r.gh1[22] = 0x20; set_nib(r.gh1, 46, 1); set_nib(r.gh1, 47, 2); r.gh1[24] = 3 + 2 * (x % 9);
    set_nib(r.gh1, 50, 8); set_bcd(r.gh1, 51, 3, 12 + x);
    if (s.rev) {
        set_be(r.gh2, 0, 3, 0x010000 + x);
        r.gh2[11] = 1;
        if (s.rev < 3) { r.gh2[18] = 2; set_be(r.gh2, 20, 2, 77 + x); }
        else { set_be(r.gh2, 20, 2, 5 + x); set_be(r.gh2, 24, 3, 2000); r.gh2[31] = 2; }
    }
    if (s.rev > 2) { r.gh3 = filler(32, x); r.gh3[31] = 3; }
    for (int i = 0; i < s.add; ++i) {
        string b;
        if (s.rev > 2) {
            auto& bl = blocks()[(i * 5 + x) % blocks().size()];
            b = filler(32, i + x);
            for (int d : bl.digits) set_nib(b, d, nib(b, d) % 10);
            b[31] = bl.type;
        } else {
            b = string(32, '\0');
            string f = filler(20, i + x);
            b.replace(0, 20, f);
            b[18] = 3 + i;
        }
        r.add.push_back(b);
    }
    for (int i = 0; i < s.scans; ++i) {
        r.sets.emplace_back();
        for (int k = 0; k < s.sets; ++k) r.sets.back().push_back(make_set(s.rev, i + 1, k + 1, s.chans, s.samples, x + k));
    }
    for (int i = 0; i < s.extended; ++i) r.extended.push_back(filler(32, 50 + i + x));
    for (int i = 0; i < s.external; ++i) r.external.push_back(filler(32, 90 + i + x));
    r.fix();
    unsigned n = 0;
    for (int i = 0; i < s.scans; ++i)
        for (int k = 0; k < s.sets; ++k)
            for (int j = 0; j < s.chans; ++j, ++n) {
                vector<uint64_t> bits;
                for (int q = 0; q < s.samples; ++q) bits.push_back(some_bits(s.format, x * 13 + n * 5 + q));
                r.tr.push_back(make_trace(r, i + 1, k + 1, j + 1, bits, s.n_ext, x + n));
            }
    return r;
}
// reads the whole file and compares everything; text of the first difference
inline string diff_file(vector<Record> const& recs, string const& path, ExtMap const& em = {}, Ctx* c = nullptr)
{
    ISEGD r(path, em);
    string d;
    for (size_t i = 0; i < recs.size(); ++i) {
        // records without traces are passed over; a file of nothing else still shows headers
        if (recs[i].tr.empty() && recs.size() > 1) continue;
        if (!(d = diff_headers(recs[i], r)).empty()) return fmt("record %zu: ", i) + d;
        for (size_t k = 0; k < recs[i].tr.size(); ++k) {
            if (!r.has_record()) return fmt("record %zu trace %zu: no record is left", i, k);
            if (!r.has_trace()) return fmt("record %zu trace %zu: no trace is left", i, k);
            if (!(d = diff_trace(recs[i], recs[i].tr[k], r.read_trace(), em)).empty()) return fmt("record %zu trace %zu: ", i, k) + d;
            if (c) c->step();
        }
    }
    if (r.has_record()) return "a record is left after the last one";
    if (r.has_trace()) return "a trace is left after the last one";
    return "";
}
// ------------------------------------------------------------------ writing
// the form in which the writer stores a trace header without a map: extended numbers repeat the short ones, the rest is zero
inline void canonical(MTrace& t, ExtMap const& em = {})
{
    set_be(t.hdr, 17, 3, bcd(t.hdr, 0, 4));
    for (size_t i = 0; i < t.ext.size(); ++i) {
        string& e = t.ext[i];
        if (!em.empty()) {
            string z(32, '\0');
            if (i < em.size()) for (auto& f : em[i]) z.replace(f.first, vt_size(f.second.second), e, f.first, vt_size(f.second.second));
            e = z;
        } else if (i) e = string(32, '\0');
        else {
            set_be(e, 10, 3, be(e, 0, 3)); set_be(e, 13, 2, 0);
            set_be(e, 15, 3, be(e, 3, 3)); set_be(e, 18, 2, 0);
            for (int k = 21; k < 32; ++k) e[k] = 0;
        }
    }
}
// bit patterns the writer produces: smallest exponent, no negative zero, no signalling NaN
inline bool canonical(int f, uint64_t p)
{
    auto frac = [&](uint64_t m, int e, int base, int bits, bool neg) { return m ? !e || m * base > (1u << bits) - 1 : !e && !neg; };
    switch (f) {
    case 8015: return !(p & 1) && frac((p & 0x8000 ? ~p & 0xffff : p & 0xffff) >> 1, p >> 16 & 15, 2, 14, p & 0x8000);
    case 8022: return frac(p & 0x80 ? ~p & 15 : p & 15, p >> 4 & 7, 4, 4, p & 0x80);
    case 8024: return frac(p & 0x8000 ? ~p & 4095 : p & 4095, p >> 12 & 7, 4, 12, p & 0x8000);
    case 8042: return frac(p & 31, p >> 5 & 3, 16, 5, p & 0x80);
    case 8044: return frac(p & 8191, p >> 13 & 3, 16, 13, p & 0x8000);
    case 8048: return p & 0xffffff ? (p & 0xf00000) || !(p & 0x7f000000) : !p;
    case 8058: case 9058: return !((p & 0x7f800000) == 0x7f800000 && (p & 0x7fffff) && !(p & 0x400000));
    case 8080: case 9080: return !((p & 0x7ff0000000000000) == 0x7ff0000000000000 && (p & 0xfffffffffffff) && !(p & 0x8000000000000));
    default: return true;
    }
}
// some canonical pattern
inline uint64_t some_canonical(int f, unsigned i)
{
    for (unsigned k = i;; k += 1000) if (canonical(f, some_bits(f, k))) return some_bits(f, k);
}
inline Record canonical(Shape const& s, ExtMap const& em = {})
{
    Record r = build(s);
    r.skew_byte = 0;
    unsigned n = 0;
    for (auto& t : r.tr) {
        for (auto& b : t.bits) b = some_canonical(s.format, s.seed * 13 + n++);
        canonical(t, em);
    }
    return r;
}
// what a writer needs, as a reader delivered it
struct Parts {
    CommonSEGD::GeneralHeader gh;
    CommonSEGD::GeneralHeader2 gh2;
    vector<std::shared_ptr<CommonSEGD::AdditionalGeneralHeader>> add;
    vector<vector<CommonSEGD::ChannelSetHeader>> sets;
    vector<vector<char>> extended, external;
    ExtMap map;
    vector<Trace> tr;
    Parts(string const& path, ExtMap const& em = {}, size_t max = -1) : Parts(std::make_shared<ISEGD>(path, em), em, max) {}
    Parts(std::shared_ptr<ISEGD> r, ExtMap const& em, size_t max)
        : gh(r->general_header()), gh2(*r->general_header2()), sets(r->channel_set_headers()), extended(r->extended_headers()), external(r->external_headers()), map(em)
    {
        for (auto& n : r->general_headerN()) add.push_back(std::make_shared<CommonSEGD::GeneralHeaderN>(n));
        while (tr.size() < max && r->has_record() && r->has_trace()) tr.push_back(r->read_trace());
    }
    std::unique_ptr<sedaman::OSEGDRev2_1> open(string const& path) const
    {
        return std::make_unique<sedaman::OSEGDRev2_1>(path, gh, gh2, sets, add, extended, external, map);
    }
    void write(string const& path)
    {
        auto w = open(path);
        for (auto& t : tr) w->write_trace(t);
    }
};
} // namespace segd
