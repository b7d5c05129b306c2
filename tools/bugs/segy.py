bug('c01-le24-min', 'C01', [('src/ISEGY.cpp', 'return result & 0x800000 ? result | 0xff000000 : result;', 'return result > 0x800000 ? result | 0xff000000 : result;', 0)],
r'''
int main()
{
    CommonSEGY::BinaryHeader bh = {};
    bh.endianness = 0x01020304; bh.format_code = 7; bh.samp_per_tr = 3; bh.fixed_tr_length = 1; bh.samp_int = 1;
    {
        OSEGYRev2 o("a", {}, bh);
        Trace t(Hdr{}, { -8388608, -8388607, 8388607 });
        o.write_trace(t);
    }
    ISEGY i("a");
    Trace t = i.read_trace();
    CHECK(t.samples()[0] == -8388608);
    CHECK(t.samples()[1] == -8388607);
    CHECK(t.samples()[2] == 8388607);
}
''', 'little-endian file of 24-bit samples holding exactly the least value', 'the least 24-bit sample of a little-endian file comes back positive')

bug('c01-var-shrink', 'C01', [('src/ISEGY.cpp', 'if (common.samp_buf.size() != samp_num * common.bytes_per_sample)', 'if (common.samp_buf.size() < samp_num * common.bytes_per_sample)')],
r'''
int main()
{
    CommonSEGY::BinaryHeader bh = {};
    bh.format_code = 6; bh.samp_per_tr = 1; bh.samp_int = 1;
    {
        OSEGYRev1 o("a", {}, bh);
        for (int n : { 1, 3, 3, 2 }) {
            Trace t(Hdr{ { "SAMP_NUM", int64_t(n) } }, std::vector<double>(n, n));
            o.write_trace(t);
        }
    }
    ISEGY i("a");
    for (int n : { 1, 3, 3, 2 }) {
        CHECK(i.has_trace());
        CHECK(i.read_trace().samples() == std::vector<double>(n, n));
    }
}
''', 'variable length file where a trace is shorter than one read before it', 'a shorter trace after a longer one swallows the following bytes')

bug('c01-ibm-neg-zero-exp', 'C01', [('src/ISEGY.cpp', 'return fraction / pow(2, 24) * pow(16, exp - 64) * sign;', 'return fraction / pow(2, 24) * static_cast<float>(pow(16, exp - 64)) * sign;')],
r'''
int main()
{
    CommonSEGY::BinaryHeader bh = {};
    bh.format_code = 1; bh.samp_per_tr = 4; bh.samp_int = 1;
    std::vector<double> v { 1.5, -ldexp(1, -180), ldexp(3, 200), ldexp(0x123456, 100) };
    {
        OSEGYRev0 o("a", "", bh);
        Trace t(Hdr{}, v);
        o.write_trace(t);
    }
    ISEGY i("a");
    Trace t = i.read_trace();
    for (int k = 0; k < 4; ++k)
        CHECK(t.samples()[k] == v[k]);
}
''', 'IBM float samples whose magnitude is outside the range of IEEE single', 'huge and tiny IBM float samples come back as infinity or zero')

bug('c02-u32-sign', 'C02', [('src/ISEGY.cpp', 'hdr[p.second.first] = read_u32(&pos);', 'hdr[p.second.first] = read_i32(&pos);')],
r'''
int main()
{
    Map m { { "MAINHEAD", { { 4, { "A", VT::uint32_t } }, { 8, { "B", VT::uint32_t } } } } };
    CommonSEGY::BinaryHeader bh = {};
    bh.format_code = 8; bh.samp_per_tr = 1; bh.fixed_tr_length = 1; bh.samp_int = 1;
    {
        OSEGYRev1 o("a", {}, bh, m);
        Trace t(Hdr{ { "A", int64_t(7) }, { "B", int64_t(0x80000001) } }, { 1 });
        o.write_trace(t);
    }
    ISEGY i("a", m);
    Trace::Header h = i.read_header();
    CHECK(as_int(h, "A") == 7);
    CHECK(as_int(h, "B") == 0x80000001);
}
''', 'a user map with an unsigned 32-bit field whose top bit is set', 'unsigned 32-bit header values above 2^31 come back negative')

bug('c02-stale-add-hdr', 'C02', [('src/OSEGY.cpp', '''		std::memset(buf, 0, CommonSEGY::TR_HEADER_SIZE);
		if (static_cast<decltype(common.tr_hdr_map.size())>(i) <
				common.tr_hdr_map.size()) {
''', '''		if (static_cast<decltype(common.tr_hdr_map.size())>(i) <
				common.tr_hdr_map.size()) {
			if (!common.tr_hdr_map[i].second.empty() &&
				common.tr_hdr_map[i].second.begin()->first == 0)
				std::memset(buf, 0, CommonSEGY::TR_HEADER_SIZE);
''')],
r'''
int main()
{
    Map m { { "MAINHEAD", { { 0, { "A", VT::int32_t } } } }, { "SECOND00", { { 8, { "B", VT::int32_t } } } } };
    CommonSEGY::BinaryHeader bh = {};
    bh.SEGY_rev_major_ver = 2; bh.max_num_add_tr_headers = 1;
    bh.format_code = 8; bh.samp_per_tr = 1; bh.fixed_tr_length = 1; bh.samp_int = 1;
    {
        OSEGYRev2 o("a", {}, bh, {}, m);
        Trace t(Hdr{ { "A", int64_t(0x01020304) }, { "B", int64_t(5) } }, { 1 });
        o.write_trace(t);
    }
    std::string s = slurp("a");
    CHECK(s.size() == 3600 + 481);
    for (int k = 0; k < 8; ++k)
        CHECK(s[3840 + k] == 0);
}
''', 'an additional trace header whose map does not start at byte 0', 'bytes of the main trace header leak into the additional one')

bug('c03-override-endian', 'C03', [('src/ISEGY.cpp', '''    memcpy(&common.binary_header.endianness, buf + 96, sizeof(int32_t));
    assign_raw_readers();
    if (override_bin_hdr)
		return;
''', '''    if (!override_bin_hdr || !common.binary_header.endianness)
        memcpy(&common.binary_header.endianness, buf + 96, sizeof(int32_t));
    assign_raw_readers();
    if (override_bin_hdr)
		return;
''')],
r'''
int main()
{
    CommonSEGY::BinaryHeader bh = {};
    bh.endianness = 0x01020304; bh.format_code = 3; bh.samp_per_tr = 2; bh.fixed_tr_length = 1; bh.samp_int = 1;
    {
        OSEGYRev2 o("a", {}, bh);
        Trace t(Hdr{}, { 1, 2 });
        o.write_trace(t);
    }
    CommonSEGY::BinaryHeader b = ISEGY::read_binary_header("a");
    b.job_id = 77;
    b.endianness = 0x04030201;
    ISEGY i("a", b);
    CHECK(i.binary_header().job_id == 77);
    CHECK(i.read_trace().samples() == (std::vector<double>{ 1, 2 }));
}
''', 'reader given a binary header whose byte-order mark differs from that of the file', 'the byte order of the file is ignored when the binary header is overridden')

bug('c04-end-stanza', 'C04', [('src/ISEGY.cpp', '''            common.file.read(buf, CommonSEGY::TEXT_HEADER_SIZE);
            common.text_headers.emplace_back(buf,
										 CommonSEGY::TEXT_HEADER_SIZE);
            if (!end_stanza.compare(0, end_stanza.size(), buf,
								   	end_stanza.size()))
                return;
''', '''            common.file.read(buf, CommonSEGY::TEXT_HEADER_SIZE);
            string text(buf, CommonSEGY::TEXT_HEADER_SIZE);
            bool last = text.find(end_stanza) != string::npos;
            common.text_headers.emplace_back(move(text));
            if (last)
                return;
''')],
r'''
int main()
{
    // the end stanza is the block that starts with the mark, not one that mentions it
    std::string s(3600, 0), x(3200, 'x'), m = x, e = x;
    be(s, 3220, 2, 1); be(s, 3224, 2, 8);
    s[3500] = 1; be(s, 3502, 2, 1); be(s, 3504, 2, 0xffff);
    m.replace(80, 16, "((SEG: EndText))");
    e.replace(0, 16, "((SEG: EndText))");
    std::string trc(241, 0);
    trc[240] = 9;
    spill("a", s + x + m + x + e + trc);
    ISEGY i("a");
    CHECK(i.text_headers().size() == 5);
    CHECK(i.text_headers()[2] == m);
    CHECK(i.text_headers()[4] == e);
    CHECK(i.read_trace().samples() == std::vector<double>{ 9 });
    CHECK(!i.has_trace());
}
''', 'variable number of extended text headers, one of which mentions the end mark inside its text', 'reading of extended text headers stops at a block that only mentions the end mark')

bug('c05-many-samples', 'C05', [('src/ISEGY.cpp', 'static_cast<uint16_t>(common.binary_header.samp_per_tr);', 'common.binary_header.samp_per_tr;')],
r'''
int main()
{
    std::string s(3600, 0), trc(240 + 40000, 3);
    for (int k = 0; k < 240; ++k) trc[k] = 0;
    be(s, 3220, 2, 40000); be(s, 3224, 2, 8);
    spill("a", s + trc + trc);
    ISEGY i("a");
    CHECK(i.read_trace().samples().size() == 40000);
    CHECK(i.has_trace());
    CHECK(i.read_trace().samples().size() == 40000);
    CHECK(!i.has_trace());
}
''', 'file declaring more than 32767 samples per trace', 'files with 32768 to 65535 samples per trace can not be read')

bug('c05-add-hdr-after-map', 'C05', [('src/ISEGY.cpp', '''		} else {
			file_skip_bytes(CommonSEGY::TR_HEADER_SIZE);
		}
''', '''		} else {
			break;
		}
''')],
r'''
int main()
{
    std::string s(3600, 0), trc(240 * 3 + 1, 0);
    be(s, 3220, 2, 1); be(s, 3224, 2, 8);
    s[3500] = 2; be(s, 3502, 2, 1); be(s, 3506, 4, 2);
    trc[720] = 5;
    spill("a", s + trc);
    CommonSEGY::BinaryHeader bh = {};
    bh.SEGY_rev_major_ver = 1;
    bh.samp_per_tr = 1; bh.format_code = 8; bh.fixed_tr_length = 1; bh.max_num_add_tr_headers = 2;
    ISEGY i("a", bh, Map { { "MAINHEAD", { { 0, { "A", VT::int32_t } } } } });
    CHECK(i.read_trace().samples() == std::vector<double>{ 5 });
    CHECK(!i.has_trace());
}
''', 'a file with more additional trace headers than the map describes', 'additional trace headers without a map are taken for samples')

bug('c06-var-header-skip', 'C06', [('src/ISEGY.cpp', '''    if (pimpl->common.binary_header.fixed_tr_length ||
		pimpl->common.binary_header.SEGY_rev_major_ver == 0) {
''', '''    if (pimpl->common.binary_header.fixed_tr_length ||
		pimpl->common.binary_header.SEGY_rev_major_ver == 0 ||
		pimpl->common.samp_per_tr) {
''')],
r'''
int main()
{
    CommonSEGY::BinaryHeader bh = {};
    bh.format_code = 8; bh.samp_per_tr = 2; bh.samp_int = 1;
    {
        OSEGYRev1 o("a", {}, bh);
        for (int k : { 2, 3, 1, 2 }) {
            Trace t(Hdr{ { "FFID", int64_t(k) }, { "SAMP_NUM", int64_t(k) } }, std::vector<double>(k, 0x11));
            o.write_trace(t);
        }
    }
    ISEGY i("a");
    for (int k : { 2, 3, 1, 2 })
        CHECK(as_int(i.read_header(), "FFID") == k);
    CHECK(!i.has_trace());
}
''', 'variable trace length, headers read without samples, a length other than the declared one', 'header reads of a variable length file lose the trace boundaries')

bug('c07-seek-once', 'C07', [('src/ISEGYSorted1D.cpp', '''    common().file.seekg(*pimpl->vec_cur);
    Trace trc = ISEGY::read_trace();
    ++pimpl->vec_cur;
''', '''    if (pimpl->vec_cur == pimpl->map_cur->second.begin() ||
        common().file.tellg() > *pimpl->vec_cur)
        common().file.seekg(*pimpl->vec_cur);
    Trace trc = ISEGY::read_trace();
    ++pimpl->vec_cur;
''')],
r'''
int main()
{
    CommonSEGY::BinaryHeader bh = {};
    bh.format_code = 8; bh.samp_per_tr = 1; bh.samp_int = 1;
    int64_t keys[] = { 1, 2, 1 };
    {
        OSEGYRev0 o("a", "", bh);
        for (int k = 0; k < 3; ++k) {
            Trace t(Hdr{ { "FFID", keys[k] } }, { double(k) });
            o.write_trace(t);
        }
    }
    ISEGYSorted1D i("a", "FFID");
    for (double want : { 0, 2, 1 })
        CHECK(i.read_trace().samples()[0] == want);
    CHECK(!i.has_trace());
}
''', 'equal keys that are not adjacent in the file', 'another trace is delivered instead of the next one with the same key')

bug('c07-max-num', 'C07', [('src/ISEGYSorted1D.cpp', 'vit != vend && result.size() != max_num; ++vit) {', 'vit != vend && (result.size() != max_num || !max_num); ++vit) {', 1)],
r'''
int main()
{
    CommonSEGY::BinaryHeader bh = {};
    bh.format_code = 8; bh.samp_per_tr = 1; bh.samp_int = 1;
    {
        OSEGYRev0 o("a", "", bh);
        for (int k = 0; k < 3; ++k) {
            Trace t(Hdr{ { "FFID", int64_t(1) } }, { double(k) });
            o.write_trace(t);
        }
    }
    ISEGYSorted1D i("a", "FFID");
    CHECK(i.get_traces(int64_t(1), 2).size() == 2);
    CHECK(i.get_traces(int64_t(1), 0).size() == 0);
}
''', 'asking for at most zero traces of a key', 'a limit of zero traces is taken as no limit')

bug('c08-table', 'C08', [('src/CommonSEGY.cpp', '0x5c,0xf7'.upper().replace('X','x'), '0x5c,0xd7'.upper().replace('X','x'))],
r'''
int main()
{
    for (int c = 0; c < 256; ++c) {
        std::string s(1, char(c));
        CommonSEGY::ebcdic_to_ascii(s);
        CommonSEGY::ascii_to_ebcdic(s);
        CHECK(s[0] == char(c));
    }
}
''', 'text holding EBCDIC byte 0xE1 (division sign)', 'one non-ASCII EBCDIC character is not restored')

bug('c09-bcd-wide', 'C09', [('include/util.hpp', '    std::bitset<bitset_size> storage(val);', '    std::bitset<bitset_size> storage(static_cast<unsigned long>(val) &\n        (num > 8 ? 0x7fffffffffUL : ~0UL));')],
r'''
int main()
{
    for (long long v : { 549755813887LL, 549755813888LL, 999999999999LL, 123456789012LL }) {
        char b[8] = {};
        char* p = b;
        to_bcd(&p, v, false, 12);
        char const* q = b;
        CHECK(from_bcd<long long>(&q, false, 12) == v);
    }
}
''', 'a 12-digit number above 549755813887 (the general constant of a SEG-D file)', 'the largest 12-digit numbers lose their top bit when written as BCD')

bug('c09-skip-even', 'C09', [('include/util.hpp', '    *buf += (num + skip_first) / 2;', '    *buf += num / 2 + (skip_first && num > 1);')],
r'''
int main()
{
    char b[] = { 0x12, 0x34, 0x56 };
    char const* p = b;
    CHECK(from_bcd<int>(&p, true, 2) == 23);
    CHECK(p == b + 1);
    CHECK(from_bcd<int>(&p, true, 1) == 4);
    CHECK(p == b + 2);
}
''', 'decoding an even number of digits, or a single one, from the second half byte', 'the read position is one byte off after such a field')

bug('c10-short-read', 'C10', [('src/CommonSEGY.cpp', '''    fl.exceptions(fstream::failbit | fstream::badbit);
    fl.open(file_name, mode);
''', '''    fl.open(file_name, mode);
    if (!fl.is_open())
        throw Exception(__FILE__, __LINE__, "can not open file " + file_name);
    fl.exceptions(fstream::badbit);
''')],
r'''
int main()
{
    // text header and a part of the binary header only
    spill("a", std::string(3300, 0x40));
    CHECK(throws([] { ISEGY i("a"); }));
    spill("b", std::string(3100, 0x40));
    CHECK(throws([] { ISEGY i("b"); }));
    // an extended text header is cut
    std::string s(3600, 0);
    be(s, 3220, 2, 1); be(s, 3224, 2, 8);
    s[3500] = 1; be(s, 3502, 2, 1); be(s, 3504, 2, 1);
    spill("c", s + std::string(100, 'x'));
    CHECK(throws([] { ISEGY i("c"); }));
}
''', 'a file cut inside its headers', 'a truncated SEG-Y file is opened and filled up with garbage instead of being refused')

bug('c11-add-hdr-count', 'C11', [('src/CommonSEGY.cpp', 'com->tr_hdr_map.size() - 1 != ', 'com->tr_hdr_map.size() - 1 < ')],
r'''
int main()
{
    CommonSEGY::BinaryHeader bh = {};
    bh.SEGY_rev_major_ver = 2; bh.max_num_add_tr_headers = 1; bh.format_code = 8; bh.samp_per_tr = 1; bh.fixed_tr_length = 1;
    std::map<uint32_t, std::pair<std::string, VT>> f { { 0, { "A", VT::int8_t } } };
    CHECK(throws([&] { OSEGYRev2 o("a", {}, bh, {}, Map { { "11111111", f } }); }));
    CHECK(!throws([&] { OSEGYRev2 o("a", {}, bh, {}, Map { { "11111111", f }, { "22222222", f } }); }));
    CHECK(throws([&] { OSEGYRev2 o("a", {}, bh, {}, Map { { "11111111", f }, { "22222222", f }, { "33333333", f } }); }));
}
''', 'a header map with more additional headers than the binary header declares', 'the mismatch is accepted and the surplus header never written')

bug('c19-merge-assign', 'C19', [('src/Trace.cpp', '''        pimpl->d_hdr = o.pimpl->d_hdr;
    return *this;
''', '''        for (auto& p : o.pimpl->d_hdr)
            pimpl->d_hdr[p.first] = p.second;
    return *this;
''')],
r'''
int main()
{
    Trace::Header a(Hdr{ { "A", int64_t(1) } }), b(Hdr{ { "B", int64_t(2) } });
    a = b;
    CHECK(!a.get("A"));
    CHECK(a.keys().size() == 1);
}
''', 'copy assignment to a header that has a name its source lacks', 'old fields survive an assignment')

bug('c19-self-move', 'C19', [('src/Trace.cpp', '''    if (&o != this) {
        pimpl->d_header = move(o.pimpl->d_header);
        pimpl->d_samples = move(o.pimpl->d_samples);
    }
''', '''    pimpl->d_header = move(o.pimpl->d_header);
    pimpl->d_samples = move(o.pimpl->d_samples);
''')],
r'''
int main()
{
    Trace t(Hdr{ { "A", int64_t(1) } }, { 1, 2, 3 });
    Trace& r = t;
    t = std::move(r);
    CHECK(t.samples().size() == 3);
    CHECK(as_int(t.header(), "A") == 1);
}
''', 'a trace moved onto itself', 'a trace loses its samples when it is moved onto itself')

bug('c20-shared-size', 'C20', [('include/CommonSEGY.hpp', '    int bytes_per_sample;', '    inline static int bytes_per_sample = 0;')],
r'''
int main()
{
    CommonSEGY::BinaryHeader bh = {};
    bh.samp_per_tr = 2; bh.samp_int = 1;
    bh.format_code = 3;
    { OSEGYRev0 o("a", "", bh); Trace t(Hdr{}, { 1, 2 }); o.write_trace(t); o.write_trace(t); }
    bh.format_code = 8;
    { OSEGYRev0 o("b", "", bh); Trace t(Hdr{}, { 1, 2 }); o.write_trace(t); }
    ISEGY i("a"), k("b");
    CHECK(i.read_trace().samples() == (std::vector<double>{ 1, 2 }));
    CHECK(k.read_trace().samples() == (std::vector<double>{ 1, 2 }));
    CHECK(i.read_trace().samples() == (std::vector<double>{ 1, 2 }));
}
''', 'two SEG-Y files of different sample sizes open at once', 'opening a second file changes the sample size of the first')

bug('c20-hdr-buf', 'C20', [('include/CommonSEGY.hpp', '    std::vector<char> samp_buf;', '    inline static std::vector<char> samp_buf;')],
r'''
int main()
{
    CommonSEGY::BinaryHeader bh = {};
    bh.samp_int = 1; bh.format_code = 8;
    bh.samp_per_tr = 2;
    OSEGYRev0 o("a", "", bh);
    bh.samp_per_tr = 5;
    { OSEGYRev0 p("b", "", bh); }
    Trace t(Hdr{}, { 1, 2 });
    o.write_trace(t);
    o.write_trace(t);
    o.~OSEGYRev0();
    new (&o) OSEGYRev0("c", "", bh);
    CHECK(slurp("a").size() == 3600 + 2 * 242);
}
''', 'two writers (or readers) with different trace lengths open at once', 'traces of one file get the length of the other')

bug('c22-binary-names', 'C22', [('src/CommonSEGY.cpp', '''    "Extended sample interval",
    "Extended sample interval of original field recording",
''', '''    "Extended sample interval of original field recording",
    "Extended sample interval",
''')],
r'''
int main()
{
    using N = CommonSEGY::BinaryHeader::Name;
    CHECK(std::string(CommonSEGY::BinaryHeader::name_as_string(N::EXT_SAMP_INT)).find("original") == std::string::npos);
    CHECK(std::string(CommonSEGY::BinaryHeader::name_as_string(N::EXT_SAMP_INT_ORIG)).find("original") != std::string::npos);
}
''', 'asking for the names of the extended sample interval fields', 'two binary header fields get each other\'s description')

bug('c11-endian-mark', 'C11', [('src/OSEGY.cpp', '''    case 0:
    case 0x04030201:
        write_u16''', '''    case 0:
    case 0x04030201: case 0x02010403:
        write_u16''')],
r'''
int main()
{
    CommonSEGY::BinaryHeader bh = {};
    bh.format_code = 8; bh.samp_per_tr = 1; bh.fixed_tr_length = 1;
    for (int32_t e : { 0x01020304, 0x04030201, 0 }) {
        bh.endianness = e;
        CHECK(!throws([&] { OSEGYRev2 o("a", {}, bh); }));
    }
    for (int32_t e : { 0x02010403, 0x03040102, 1, -1 }) {
        bh.endianness = e;
        CHECK(throws([&] { OSEGYRev2 o("a", {}, bh); }));
    }
}
''', 'writer given the byte-order mark of a pairwise swapped file', 'a file is written whose mark does not describe its byte order and which can not be read')


bug('c03-trace-count', 'C03', [('src/OSEGY.cpp', 'write_u64(&ptr, common.binary_header.num_of_tr_in_file);', 'write_u64(&ptr, static_cast<int32_t>(common.binary_header.num_of_tr_in_file));')],
r'''
int main()
{
    CommonSEGY::BinaryHeader bh = {};
    bh.format_code = 8; bh.samp_per_tr = 1; bh.fixed_tr_length = 1; bh.num_of_tr_in_file = 0x80000000u;
    { OSEGYRev2 o("a", {}, bh); }
    CHECK(ISEGY::read_binary_header("a").num_of_tr_in_file == 0x80000000u);
}
''', 'a declared number of traces above 2^31', 'the number of traces in the file is stored wrong')

bug('c06-empty-last', 'C06', [('src/ISEGY.cpp', 'if (pimpl->curr_pos == pimpl->end_of_data)', 'if (pimpl->end_of_data - pimpl->curr_pos <= CommonSEGY::TR_HEADER_SIZE)')],
r'''
int main()
{
    CommonSEGY::BinaryHeader bh = {};
    bh.format_code = 8; bh.samp_per_tr = 2; bh.samp_int = 1;
    {
        OSEGYRev1 o("a", {}, bh);
        for (int k : { 2, 0 }) {
            Trace t(Hdr{ { "FFID", int64_t(k) }, { "SAMP_NUM", int64_t(k) } }, std::vector<double>(k, 1));
            o.write_trace(t);
        }
    }
    ISEGY i("a");
    i.read_trace();
    CHECK(i.has_trace());
    CHECK(i.read_trace().samples().empty());
    CHECK(!i.has_trace());
}
''', 'a variable length file whose last trace has no samples', 'the last trace is not reported when it is only a header')

bug('c04-nul-text', 'C04', [('src/OSEGYRev2.cpp', 'sgy.common().text_headers = move(txt_hdrs);', '''for (string& s : txt_hdrs) {
        // the text ends at the first zero byte
        s = string(s.c_str());
        s.resize(CommonSEGY::TEXT_HEADER_SIZE);
    }
    sgy.common().text_headers = move(txt_hdrs);''')],
r'''
int main()
{
    std::string a(3200, 'a'), b(3200, 'b');
    b[100] = 0;
    CommonSEGY::BinaryHeader bh = {};
    bh.format_code = 8; bh.samp_per_tr = 1; bh.fixed_tr_length = 1; bh.samp_int = 1;
    {
        OSEGYRev2 o("f", { a, b }, bh);
        Trace t(Hdr{}, { 1 });
        o.write_trace(t);
    }
    ISEGY i("f");
    CHECK(i.text_headers() == (std::vector<std::string>{ a, b }));
}
''', 'text header containing a zero byte', 'everything after a zero byte of a text header is lost')

bug('c21-static-what', 'C21', [('src/Exception.cpp', 'return pimpl->d_message.c_str();', '''static string last;
    last = pimpl->d_message;
    return last.c_str();''')],
r'''
int main()
{
    Exception a("file", 1, std::string("first reason that is long enough to live on the heap")),
        b("file", 2, std::string("second one"));
    char const* p = a.what();
    b.what();
    CHECK(std::string(p).find("first reason") != std::string::npos);
}
''', 'two exceptions alive at once (a nested error, or one caught while another is reported)', 'the message of the first exception changes when the second is asked')
