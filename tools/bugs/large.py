
LARGE = r'''
#include <unistd.h>
// revision 2 file, variable length, 4-byte floats; every trace is {key, samples}; only the headers take room
inline void sparse(char const* name, std::vector<std::pair<int, uint32_t>> tr, uint64_t first)
{
    std::FILE* f = std::fopen(name, "wb");
    auto put = [&](uint64_t at, std::string const& s) { fseeko(f, at, SEEK_SET); std::fwrite(s.data(), 1, s.size(), f); };
    std::string h(3600, ' ');
    std::fill(h.begin() + 3200, h.end(), 0);
    be(h, 3216, 2, 1000); be(h, 3220, 2, 1); be(h, 3224, 2, 5); be(h, 3296, 4, 0x01020304); h[3500] = 2;
    be(h, 3512, 8, tr.size()); be(h, 3520, 8, first);
    put(0, h);
    for (auto& t : tr) {
        std::string x(240, 0);
        be(x, 0, 4, t.first); be(x, 4, 4, t.second);
        put(first, x);
        first += 240 + 4ull * t.second;
    }
    std::fflush(f);
    if (ftruncate(fileno(f), first)) std::exit(2);
    std::fclose(f);
}
static Map const large_map { { "SEG00000", { { 0, { "KEY", VT::int32_t } }, { 4, { "SAMP_NUM", VT::int32_t } } } } };
'''
bug('c07-position-32', 'C07', [('src/ISEGYSorted1D.cpp', 'streampos pos = s.common().file.tellg();', 'auto pos = static_cast<uint32_t>(s.common().file.tellg());')],
LARGE + r'''
int main()
{
    sparse("a", { { 3, 1 }, { 2, 1u << 30 }, { 1, 1 } }, 3600);
    ISEGYSorted1D r("a", "KEY", large_map);
    CHECK(as_int(r.read_header(), "KEY") == 1);
}
''', 'a sorted reader on a file of more than 4 GB', 'positions beyond 4 GB are cut and other bytes are delivered as a trace')

bug('c06-skip-int', 'C06', [('src/ISEGY.cpp', 'pimpl->file_skip_bytes(samp_num * pimpl->common.bytes_per_sample);',
  'int bytes = samp_num * pimpl->common.bytes_per_sample;\n        pimpl->file_skip_bytes(bytes);')],
LARGE + r'''
int main()
{
    sparse("a", { { 3, (1u << 30) + 5 }, { 2, 1 }, { 1, 1 } }, 3600);
    ISEGY r("a", large_map);
    for (int k : { 3, 2, 1 }) { CHECK(r.has_trace()); CHECK(as_int(r.read_header(), "KEY") == k); }
    CHECK(!r.has_trace());
}
''', 'the header alone is read of a trace of more than 4 GB', 'the reader goes on inside the samples of the trace')

