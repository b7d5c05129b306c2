# objects of different threads
bug('c20-thread-header', 'C20', [('src/ISEGY.cpp', '''    unordered_map<string, Trace::Header::Value> hdr;
	for (decltype(''', '''    // keeps its buckets from trace to trace
    static unordered_map<string, Trace::Header::Value> hdr;
    hdr.clear();
	for (decltype(''')],
r'''
#include <atomic>
#include <chrono>
#include <thread>
int main()
{
    CommonSEGY::BinaryHeader bh = {};
    bh.samp_int = 1; bh.format_code = 8; bh.samp_per_tr = 2;
    for (int k = 0; k < 2; ++k) {
        OSEGYRev0 o(k ? "b" : "a", "", bh);
        for (int i = 0; i < 50; ++i) {
            Trace t(Hdr { { "FFID", (int64_t)(1000 * k + i) }, { "SAMP_NUM", (int64_t)2 } }, { 1, 2 });
            o.write_trace(t);
        }
    }
    std::atomic<int> wrong { 0 };
    std::atomic<bool> stop { false };
    auto work = [&](int k) {
        try {
            while (!stop) {
                ISEGY r(k ? "b" : "a");
                for (int i = 0; i < 50; ++i)
                    if (as_int(r.read_trace().header(), "FFID") != 1000 * k + i) ++wrong, stop = true;
            }
        } catch (std::exception&) { ++wrong; stop = true; }
    };
    std::thread a(work, 0), b(work, 1);
    for (int i = 0; i < 400 && !stop; ++i) std::this_thread::sleep_for(std::chrono::milliseconds(20));
    stop = true;
    a.join(); b.join();
    CHECK(!wrong);
}
''', 'two threads, each reading a file of its own, one preempted while it fills the header of a trace', 'headers of one file turn up in the traces of another')

bug('c20-thread-scale', 'C20', [('src/ISEGD.cpp', '''    double descale = pow(2, curr_ch_set.descale_multiplier);''', '''    static double descale;
    descale = pow(2, curr_ch_set.descale_multiplier);''')],
r'''
#include <atomic>
#include <chrono>
#include <thread>
int main()
{
    for (int k = 0; k < 2; ++k) {
        SegD d; d.set(40);
        if (k) be(d.sets.back(), 6, 2, 3 << 10);
        for (int i = 0; i < 40; ++i) d.trace(1, i + 1, { ext1(3) }, f32({ 1, 2, 3 }));
        spill(k ? "b" : "a", d.str());
    }
    double scale[2];
    for (int k = 0; k < 2; ++k) { ISEGD r(k ? "b" : "a"); scale[k] = r.read_trace().samples()[0]; }
    CHECK(scale[0] != scale[1]);
    std::atomic<int> wrong { 0 };
    std::atomic<bool> stop { false };
    auto work = [&](int k) {
        try {
            while (!stop) {
                ISEGD r(k ? "b" : "a");
                for (int i = 0; i < 40; ++i)
                    if (r.read_trace().samples()[0] != scale[k]) ++wrong, stop = true;
            }
        } catch (std::exception&) { ++wrong; stop = true; }
    };
    std::thread a(work, 0), b(work, 1);
    for (int i = 0; i < 400 && !stop; ++i) std::this_thread::sleep_for(std::chrono::milliseconds(20));
    stop = true;
    a.join(); b.join();
    CHECK(!wrong);
}
''', 'two threads, each reading a file of its own, one preempted between looking up the channel set and scaling the samples', 'samples of one file are scaled for another')
