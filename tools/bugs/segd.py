I='src/ISEGD.cpp'; O='src/OSEGD.cpp'

bug('c12-scan-int-sign', 'C12', [(I, 'gh.base_scan_int = read_u8(&buf) / pow(2, 4);', 'gh.base_scan_int = read_i8(&buf) / pow(2, 4);')],
r'''
int main()
{
    for (int v : { 0x10, 0x7f, 0x80, 0xff }) {
        SegD d; d.set(1); d.trace(1, 1, {}, f32({ 1 }));
        d.gh1[22] = char(v);
        spill("a", d.str());
        ISEGD i("a");
        CHECK(i.general_header().base_scan_int == v / 16.0);
    }
}
''', 'a record whose base scan interval is 8 ms or more', 'base scan intervals of 8 ms and more come back negative')

bug('c12-ghn-point-sign', 'C12', [(I, 'ghN.sou_point_num = read_i24(&buf);', 'ghN.sou_point_num = read_u24(&buf);')],
r'''
int main()
{
    SegD d; d.set(1); d.trace(1, 1, {}, f32({ 1 }));
    d.gh1[11] = 0x20;
    std::string n(32, 0);
    be(n, 3, 3, 0xfffffe); be(n, 6, 2, 0x8000);
    be(n, 8, 3, 0xfffffd); be(n, 11, 2, 0x4000);
    n[18] = 3;
    d.add = { n };
    spill("a", d.str());
    ISEGD i("a");
    auto v = i.general_headerN();
    CHECK(v.size() == 1);
    CHECK(v[0].sou_line_num == -1.5);
    CHECK(v[0].sou_point_num == -2.75);
}
''', 'an additional general header with a negative source point number', 'negative source points come back as huge positive numbers')

bug('c12-external-count', 'C12', [(I, 'int32_t external_blocks = common.general_header.external_hdr_blocks == 165', 'int32_t external_blocks = common.general_header.extended_hdr_blocks == 165')],
r'''
int main()
{
    for (int ext : { 0, 1 }) {
        SegD d; d.set(1);
        d.gh1[30] = 1;
        d.extd = std::string(32, 'x');
        d.extl = std::string(64, 'y');
        d.gh1[31] = ext ? 0xff : 2;
        be(d.gh2, 7, 2, ext ? 2 : 0);
        d.trace(1, 1, {}, f32({ 1 }));
        spill("a", d.str());
        ISEGD i("a");
        CHECK(i.extended_headers().size() == 1);
        CHECK(i.external_headers().size() == 2);
        CHECK(i.external_headers()[1] == std::vector<char>(32, 'y'));
        CHECK(i.read_trace().samples()[0] == 1);
    }
}
''', 'a record whose external header count is in the extended field while its extended header count is in the short one', '165 external header blocks are expected where the record has fewer')

bug('c12-gh3-of-rev2', 'C12', [(I, '''pimpl->common.general_header2.segd_rev_major > 2 ?
	   	optional<CommonSEGD::GeneralHeader3>''', '''pimpl->common.general_header2.segd_rev_major > 1 ?
	   	optional<CommonSEGD::GeneralHeader3>''')],
r'''
int main()
{
    for (int rev : { 0, 1, 2 }) {
        SegD d(rev); d.set(1); d.trace(1, 1, {}, f32({ 1 }));
        spill("a", d.str());
        ISEGD i("a");
        CHECK(!i.general_header3());
    }
}
''', 'a revision 2 record', 'a third general header is reported for a record that has none')

R3 = r'''
static std::string rec3(std::vector<std::string> add, std::string g3 = std::string(32, 0))
{
    std::string gh1(32, 0), gh2(32, 0), c(96, 0), t(20, 0);
    be(gh1, 0, 2, 1); be(gh1, 2, 2, 0x8058);
    gh1[27] = 1; gh1[28] = 1; gh1[22] = 0x10;
    size_t n = add.size() + 2;
    gh1[11] = n < 10 ? n << 4 : 0xf0;
    gh2[10] = 3;
    be(gh2, 22, 2, n);
    gh2[31] = 2; g3[31] = 3;
    c[0] = 1; be(c, 1, 2, 1); c[3] = 0x10; be(c, 12, 4, 1); be(c, 20, 3, 1);
    be(t, 0, 2, 1); t[2] = 1; t[3] = 1; be(t, 4, 2, 1);
    std::string r = gh1 + gh2 + g3;
    for (auto& a : add) r += a;
    return r + c + t + f32({ 1.5f });
}
'''
bug('c13-aux-trace-sign', 'C13', [(I, 'ghS.trace_num_5 = read_u24(&buf);', 'ghS.trace_num_5 = read_i24(&buf);')],
R3 + r'''
int main()
{
    std::string b(32, 0);
    for (int k = 0; k < 5; ++k) { b[1 + 6 * k] = 1; be(b, 2 + 6 * k, 2, k + 1); be(b, 4 + 6 * k, 3, 0x800000 + k); }
    b[31] = 0x21;
    spill("a", rec3({ b }));
    ISEGD i("a");
    CHECK(i.general_header_sou_aux_chan_ref());
    CHECK(i.general_header_sou_aux_chan_ref()->trace_num_1 == 0x800000);
    CHECK(i.general_header_sou_aux_chan_ref()->trace_num_5 == 0x800004);
}
''', 'source auxiliary reference block whose fifth trace number has the top bit set', 'the fifth auxiliary trace number gets bits the record does not have')

bug('c13-block-count', 'C13', [(I, 'uint16_t add_blks_num = common.general_header.add_gen_hdr_blocks ==', 'uint8_t add_blks_num = common.general_header.add_gen_hdr_blocks ==')],
R3 + r'''
int main()
{
    for (size_t n : { 0, 1, 20, 252, 253, 254, 300 }) {
        std::string b(32, 'v');
        b[31] = 0x10;
        spill("a", rec3(std::vector<std::string>(n, b)));
        ISEGD i("a");
        CHECK(i.has_trace());
        CHECK(i.read_trace().samples() == std::vector<double> { 1.5 });
        CHECK(!i.has_record());
    }
}
''', 'a revision 3 record with more than 253 optional general header blocks', 'the blocks after the first ones are taken for channel sets')

bug('c13-time-drift', 'C13', [(I, 'ghT.time_offset_retr = read_u32(&buf);', 'ghT.time_offset_retr = static_cast<float>(read_u32(&buf));')],
R3 + r'''
int main()
{
    std::string b(32, 0);
    be(b, 0, 8, 5); be(b, 8, 8, 6); be(b, 16, 4, 0x01000001); be(b, 20, 4, 0x01000001);
    b[31] = 0x44;
    spill("a", rec3({ b }));
    ISEGD i("a");
    CHECK(i.general_header_time_drift_blk());
    CHECK(i.general_header_time_drift_blk()->timer_offset_depl == 0x01000001);
    CHECK(i.general_header_time_drift_blk()->time_offset_retr == 0x01000001);
}
''', 'time drift block whose timer offset needs more than 24 bits', 'timer offsets at retrieval lose their low bits')

bug('c14-descale-int', 'C14', [(I, 'double descale = pow(2, curr_ch_set.descale_multiplier);', 'double descale = pow(2, static_cast<int>(curr_ch_set.descale_multiplier));')],
r'''
int main()
{
    for (int e : { 0, 1024, 3 << 10, 0x8000 | 1024, 512, 0x8000 | 1536 }) {
        SegD d; d.set(1, e); d.trace(1, 1, { ext1(2) }, f32({ 3, -5 }));
        spill("a", d.str());
        ISEGD i("a");
        double k = pow(2, (e & 0x8000 ? -1 : 1) * (e & 0x7fff) / 1024.0);
        Trace t = i.read_trace();
        CHECK(fabs(t.samples()[0] - 3 * k) < 1e-9);
        CHECK(fabs(t.samples()[1] + 5 * k) < 1e-9);
    }
}
''', 'channel set with a descale exponent that is not a whole number', 'samples are scaled by the wrong power of two')

bug('c14-sample-count', 'C14', [(I, 'uint32_t samp_num;', 'uint16_t samp_num;')],
r'''
int main()
{
    for (int n : { 1, 65535, 65536, 70000 }) {
        SegD d; d.set(1);
        d.trace(1, 1, { ext1(n) }, f32(std::vector<float>(n, 2)));
        spill("a", d.str());
        ISEGD i("a");
        CHECK(i.read_trace().samples() == std::vector<double>(n, 2));
        CHECK(!i.has_record());
    }
}
''', 'a trace of more than 65535 samples', 'long traces come back cut and the following traces misaligned')

bug('c14-double-narrow', 'C14', [(I, 'double result; memcpy(&result, &tmp, sizeof(tmp)); return result; }; break; default:', 'double result; memcpy(&result, &tmp, sizeof(tmp)); return static_cast<double>(static_cast<float>(result)); }; break; default:')],
r'''
int main()
{
    SegD d; d.set(1);
    be(d.gh1, 2, 2, 0x9080);
    double v[] = { 1.5, 1e300, 0.1 };
    std::string s(24, 0);
    memcpy(&s[0], v, 24);
    d.trace(1, 1, { ext1(3) }, s);
    spill("a", d.str());
    ISEGD i("a");
    Trace t = i.read_trace();
    for (int k = 0; k < 3; ++k) CHECK(t.samples()[k] == v[k]);
}
''', 'little-endian double precision samples that single precision cannot hold', 'double precision samples lose precision or overflow')

bug('c15-ext-ffid', 'C15', [(I, 'if (ext_file_num)', 'if (ext_file_num > 9999)')],
r'''
int main()
{
    for (unsigned n : { 77u, 9999u, 10000u, 0xffffffu }) {
        SegD d; d.set(1); d.trace(1, 1, {}, f32({ 1 }));
        be(d.traces, 0, 2, 0xffff);
        be(d.traces, 17, 3, n);
        spill("a", d.str());
        ISEGD i("a");
        CHECK(as_int(i.read_trace().header(), "FFID") == n);
    }
}
''', 'a trace whose short file number is filled with ones and whose extended number is below 10000', 'the placeholder is returned for the file number')

bug('c15-map-i24', 'C15', [(I, 'hdr[p.second.first] = read_i24(&pos);', 'hdr[p.second.first] = static_cast<int16_t>(read_i24(&pos));')],
r'''
int main()
{
    for (int v : { 0, 5, -5, 32767, 32768, -32769, -8388608 }) {
        SegD d; d.set(1);
        std::string e(32, 0);
        be(e, 9, 3, v);
        d.trace(1, 1, { std::string(32, 0), e }, f32({ 1 }));
        spill("a", d.str());
        ISEGD i("a", { { { 7, { "SAMPS", VT::uint24_t } } }, { { 9, { "X", VT::int24_t } } } });
        CHECK(as_int(i.read_trace().header(), "X") == v);
    }
}
''', 'user extension map with a 24-bit field whose value does not fit into 16 bits', '24-bit extension fields lose their upper byte')

bug('c15-point-fraction', 'C15', [(I, 'if (ext_r_point != 0.0)', 'if (ext_r_point >= 1.0)')],
r'''
int main()
{
    for (int whole : { 0, 1 }) {
        SegD d; d.set(1);
        std::string e = ext1(1);
        be(e, 3, 3, 9);
        be(e, 15, 3, whole);
        be(e, 18, 2, 0x8000);
        d.trace(1, 1, { e }, f32({ 1 }));
        spill("a", d.str());
        ISEGD i("a");
        Trace t = i.read_trace();
        CHECK(as_dbl(t.header(), "R_POINT") == whole + 0.5);
    }
}
''', 'a trace whose extended receiver point number is less than one', 'the short receiver point number is returned although the extended one is set')

bug('c16-skew-once', 'C16', [(I, 'file_skip_bytes(skew_blks * CommonSEGD::SKEW_BLOCK_SIZE);', 'if (!i) file_skip_bytes(skew_blks * CommonSEGD::SKEW_BLOCK_SIZE);')],
r'''
int main()
{
    for (int types : { 1, 2 }) {
        SegD d; d.set(1);
        d.gh1[27] = types;
        d.gh1[29] = 2;
        std::string c = d.sets[0];
        d.sets = { c + std::string(64, 'k') };
        if (types == 2) { c[0] = 2; d.sets.push_back(c + std::string(64, 'k')); }
        d.trace(1, 1, {}, f32({ 7 }));
        if (types == 2) { d.trace(1, 1, {}, f32({ 8 })); d.traces[24 + 2] = 2; }
        spill("a", d.str());
        ISEGD i("a");
        for (int k = 0; k < types; ++k) {
            CHECK(i.has_trace());
            CHECK(i.read_trace().samples()[0] == 7 + k);
        }
        CHECK(!i.has_record());
    }
}
''', 'a record of two scan types with sample skew blocks', 'skew blocks of the second scan type are read as what follows them')

bug('c16-trailer-end', 'C16', [(I, '''    common.file.seekg(off, ios_base::cur);
    curr_pos = common.file.tellg();''', '''    common.file.seekg(off, ios_base::cur);''')],
r'''
int main()
{
    SegD d; d.set(1); d.trace(1, 1, {}, f32({ 7 }));
    be(d.gh2, 12, 2, 2);
    d.trailer = std::string(64, 't');
    for (int recs : { 1, 2, 3 }) {
        std::string s;
        for (int k = 0; k < recs; ++k) s += d.str();
        spill("a", s);
        ISEGD i("a");
        for (int k = 0; k < recs; ++k) {
            CHECK(i.has_record());
            CHECK(i.has_trace());
            CHECK(i.read_trace().samples()[0] == 7);
        }
        CHECK(!i.has_record());
    }
}
''', 'a file that ends with a general trailer', 'another record is expected after the trailer of the last one')

W21 = r'''
static CommonSEGD::ChannelSetHeader cset(int chans, double descale = 0)
{
    return CommonSEGD::ChannelSetHeader(1, 1, 1, 0, 0, descale, chans, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0);
}
static CommonSEGD::GeneralHeader ghdr()
{
    CommonSEGD::GeneralHeader g = {};
    g.file_number = 1; g.format_code = 8058; g.add_gen_hdr_blocks = 1; g.base_scan_int = 1;
    g.scan_types_per_record = 1; g.channel_sets_per_scan_type = 1;
    return g;
}
static CommonSEGD::GeneralHeader2 ghdr2()
{
    CommonSEGD::GeneralHeader2 g = {};
    g.segd_rev_major = 2; g.segd_rev_minor = 1; g.gen_hdr_block_num = 2;
    return g;
}
'''
bug('c17-record-type', 'C17', [(O, '''write_u16(&ptr, 0x0fff |
        (static_cast<unsigned>(common.general_header.record_type) << 12));''', '''write_u16(&ptr, 0x0fff |
        (static_cast<unsigned>(common.general_header.record_type & 7) << 12));''')],
W21 + r'''
int main()
{
    for (int type : { 2, 4, 6, 8 })
        for (int len : { 0, 5000 }) {
            auto g = ghdr(); auto g2 = ghdr2();
            g.record_type = type;
            g2.ext_record_len = len;
            {
                OSEGDRev2_1 o("a", g, g2, { { cset(1) } });
                Trace t(Hdr{ { "CHAN", int64_t(1) } }, { 2 });
                o.write_trace(t);
            }
            ISEGD i("a");
            CHECK(i.general_header().record_type == type);
            CHECK(i.general_header2()->ext_record_len == uint32_t(len));
        }
}
''', 'a normal record (type 8) with an extended record length', 'the record type is lost')

bug('c17-ffid-wide', 'C17', [(O, 'write_u24(&buf, ffid ? get<int64_t>(*ffid) : 0);', 'write_u24(&buf, ffid ? static_cast<uint16_t>(get<int64_t>(*ffid)) : 0);')],
W21 + r'''
int main()
{
    for (int64_t n : { 1, 9999, 10000, 65535, 65537, 0xffffff }) {
        {
            OSEGDRev2_1 o("a", ghdr(), ghdr2(), { { cset(1) } });
            Trace t(Hdr{ { "FFID", n } }, { 2 });
            o.write_trace(t);
        }
        ISEGD i("a");
        CHECK(as_int(i.read_trace().header(), "FFID") == n);
    }
}
''', 'a trace with a file number above 65535', 'large file numbers come back changed')

bug('c17-descale-writer', 'C17', [(O, '''double descale = common.channel_sets[scan_type - 1][ch_set - 1]
    .descale_multiplier;''', '''double descale = common.channel_sets[scan_type / 9][ch_set - 1]
    .descale_multiplier;''')],
W21 + r'''
int main()
{
    auto g = ghdr();
    g.scan_types_per_record = 2;
    auto a = cset(1, 0), b = cset(1, 3);
    b.scan_type_number = 2;
    {
        OSEGDRev2_1 o("a", g, ghdr2(), { { a }, { b } });
        for (int k : { 1, 2 }) {
            Trace t(Hdr{ { "SCAN_TYPE_NUM", int64_t(k) } }, { 24 });
            o.write_trace(t);
        }
    }
    ISEGD i("a");
    CHECK(i.read_trace().samples()[0] == 24);
    CHECK(i.read_trace().samples()[0] == 24);
}
''', 'two scan types whose channel sets have different descale exponents', 'samples of the second scan type come back scaled')

bug('c17-line-fraction', 'C17', [(O, 'write_u16(&buf, (r_line - r_line_int) * pow(2, 16));', 'write_u16(&buf, (r_line - r_line_int) * 65535);')],
W21 + r'''
int main()
{
    for (double v : { 5.0, 5.5, 5.25, 5 + 1 / 65536.0, 5 + 65535 / 65536.0 }) {
        {
            OSEGDRev2_1 o("a", ghdr(), ghdr2(), { { cset(1) } });
            Trace t(Hdr{ { "TR_HDR_EXT", int64_t(1) }, { "R_LINE", v } }, { 2 });
            o.write_trace(t);
        }
        ISEGD i("a");
        CHECK(as_dbl(i.read_trace().header(), "R_LINE") == v);
    }
}
''', 'a trace whose receiver line number has a fraction', 'fractions of receiver line numbers come back smaller')

bug('c18-no-failbit', 'C18', [('src/CommonSEGD.cpp', '''    fl.exceptions(fstream::failbit | fstream::badbit);
    fl.open(file_name, mode);''', '''    fl.open(file_name, mode);
    if (!fl.is_open())
        throw Exception(__FILE__, __LINE__, "unable to open " + file_name);
    fl.exceptions(fstream::badbit);''')],
r'''
int main()
{
    SegD d; d.set(3);
    d.trace(1, 1, { ext1(1) }, f32({ 7 }));
    d.trace(1, 2, { ext1(1) }, f32({ 9 }));
    d.trace(1, 3, { ext1(1) }, f32({ 9 }));
    std::string s = d.str();
    for (size_t n = s.size() - 112; n < s.size() - 56; ++n) {
        spill("a", s.substr(0, n));
        bool ex = throws([&] {
            ISEGD i("a");
            CHECK(i.read_trace().samples() == std::vector<double> { 7 });
            i.read_trace();
        });
        CHECK(ex);
    }
    CHECK(throws([] { ISEGD i("missing"); }));
}
''', 'a file cut within a trace header', 'the remains of earlier bytes are delivered as a trace')

bug('c20-segd-bits', 'C20', [('include/CommonSEGD.hpp', 'int bits_per_sample;', 'inline static int bits_per_sample = 0;')],
r'''
int main()
{
    SegD a; a.set(2); a.trace(1, 1, { ext1(1) }, f32({ 7 })); a.trace(1, 2, { ext1(1) }, f32({ 8 }));
    SegD b; b.set(1); be(b.gh1, 2, 2, 0x8036); b.trace(1, 1, { ext1(1) }, std::string("\0\0\5", 3));
    spill("a", a.str());
    spill("b", b.str());
    ISEGD i("a");
    CHECK(i.read_trace().samples()[0] == 7);
    ISEGD j("b");
    CHECK(i.read_trace().samples()[0] == 8);
    CHECK(j.read_trace().samples()[0] == 5);
}
''', 'two readers of files with different sample formats open at once', 'a reader uses the sample width of another one')

bug('c22-segd-swapped', 'C22', [('src/CommonSEGD.cpp', '''"Extended Record Length",
    "Record set number",''', '''"Record set number",
    "Extended Record Length",''')],
r'''
int main()
{
    using G = CommonSEGD::GeneralHeader2;
    CHECK(std::string(G::name_as_string(G::Name::EXTENDED_RECORD_LENGTH)).find("Record Length") != std::string::npos);
    CHECK(std::string(G::name_as_string(G::Name::RECORD_SET_NUMBER)).find("ecord set") != std::string::npos);
}
''', 'descriptions of the second general header', 'two fields carry the description of each other')
