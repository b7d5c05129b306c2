bug('c23-segy-badbit', 'C23', [('src/CommonSEGY.cpp', 'fl.exceptions(fstream::failbit | fstream::badbit);', 'fl.exceptions(fstream::failbit | fstream::eofbit);')],
r'''
#include <csignal>
#include <sys/resource.h>
int main()
{
    // the file must not grow beyond 4000 bytes
    signal(SIGXFSZ, SIG_IGN);
    rlimit l { 4000, RLIM_INFINITY };
    CommonSEGY::BinaryHeader b = {};
    b.format_code = 5; b.samp_per_tr = 5000; b.samp_int = 1000; b.SEGY_rev_major_ver = 1;
    Hdr h; h["SAMP_NUM"] = int64_t(5000);
    OSEGYRev1 o("a", {}, b);
    Trace t(h, std::vector<double>(5000, 1));
    setrlimit(RLIMIT_FSIZE, &l);
    bool thrown = throws([&] { o.write_trace(t); });
    l.rlim_cur = RLIM_INFINITY; setrlimit(RLIMIT_FSIZE, &l);
    CHECK(thrown);
}
''', 'the device runs full while a trace longer than the stream buffer is written', 'write_trace returns as if the trace were stored')

bug('c23-segd-sputn', 'C23', [('src/OSEGD.cpp', 'common.file.write(common.trc_samp_buf.data(), common.trc_samp_buf.size());',
 'common.file.rdbuf()->sputn(common.trc_samp_buf.data(),\n\t\t\t\t\t\t\t   common.trc_samp_buf.size());')],
r'''
#include <csignal>
#include <sys/resource.h>
int main()
{
    signal(SIGXFSZ, SIG_IGN);
    SegD d; d.set(1); d.trace(1, 1, {}, f32({ 1 }));
    spill("in", d.str());
    ISEGD r("in");
    auto gh = r.general_header();
    auto gh2 = *r.general_header2();
    auto sets = r.channel_set_headers();
    Trace t = r.read_trace();
    // a trace longer than the buffer of the stream: it goes to the device at once
    Hdr h;
    for (auto& k : t.header().keys()) h[k] = *t.header().get(k);
    h["TR_HDR_EXT"] = int64_t(1);
    h["SAMP_NUM"] = int64_t(5000);
    t = Trace(h, std::vector<double>(5000, 1));
    rlimit l { 1000, RLIM_INFINITY };
    setrlimit(RLIMIT_FSIZE, &l);
    bool thrown = throws([&] { OSEGDRev2_1 o("out", gh, gh2, sets); o.write_trace(t); });
    l.rlim_cur = RLIM_INFINITY; setrlimit(RLIMIT_FSIZE, &l);
    CHECK(thrown);
    OSEGDRev2_1 o("out", gh, gh2, sets);
    CHECK(!throws([&] { o.write_trace(t); }));
}
''', 'the device is full when the samples of a trace are stored', 'write_trace returns as if the trace were stored')
