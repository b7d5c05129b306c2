// Helpers of the demonstrations.
#pragma once
#include "ISEGD.hpp"
#include "ISEGY.hpp"
#include "ISEGYSorted1D.hpp"
#include "OSEGDRev2_1.hpp"
#include "OSEGYRev0.hpp"
#include "OSEGYRev1.hpp"
#include "OSEGYRev2.hpp"
#include "Exception.hpp"
#include "util.hpp"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
using namespace sedaman;
using VT = Trace::Header::ValueType;
using Value = Trace::Header::Value;
using Map = std::vector<std::pair<std::string, std::map<uint32_t, std::pair<std::string, VT>>>>;
using Hdr = std::unordered_map<std::string, Value>;

#define CHECK(c) do { if (!(c)) { std::printf("line %d: %s does not hold\n", __LINE__, #c); std::exit(1); } } while (0)
template <class F> bool throws(F f)
{
    try { f(); } catch (std::exception const&) { return true; }
    return false;
}
inline int64_t as_int(Trace::Header const& h, char const* k) { return std::get<int64_t>(*h.get(k)); }
inline double as_dbl(Trace::Header const& h, char const* k)
{
    Value v = *h.get(k);
    return v.index() ? std::get<double>(v) : std::get<int64_t>(v);
}
inline std::string slurp(std::string const& n)
{
    std::ifstream f(n, std::ios::binary);
    return { std::istreambuf_iterator<char>(f), {} };
}
inline void spill(std::string const& n, std::string const& s)
{
    std::ofstream f(n, std::ios::binary);
    f.write(s.data(), s.size());
}
inline void be(std::string& s, size_t off, int n, uint64_t v)
{
    for (int i = 0; i < n; ++i) s[off + i] = char(v >> 8 * (n - 1 - i));
}
inline void le(std::string& s, size_t off, int n, uint64_t v)
{
    for (int i = 0; i < n; ++i) s[off + i] = char(v >> 8 * i);
}
// ---- SEG-D
// revision 2 record made of one scan type and given channel sets
struct SegD {
    std::string gh1 = std::string(32, 0), gh2 = std::string(32, 0);
    std::vector<std::string> add, sets;
    std::string skew, extd, extl, traces, trailer;
    int chans = 0;
    SegD(int rev = 2)
    {
        be(gh1, 0, 2, 0x0001);
        be(gh1, 2, 2, 0x8058);
        gh1[11] = 0x10;
        gh1[22] = 0x20;
        gh1[24] = 1;
        gh1[27] = 1;
        gh2[10] = rev;
        gh2[18] = 2;
    }
    std::string& set(int chans, int descale = 0)
    {
        std::string c(32, 0);
        c[0] = 1;
        c[1] = sets.size() + 1;
        be(c, 6, 2, descale);
        be(c, 8, 2, (chans / 1000 << 12) | (chans / 100 % 10 << 8) | (chans / 10 % 10 << 4) | chans % 10);
        c[10] = 0x10;
        sets.push_back(c);
        gh1[28] = sets.size();
        return sets.back();
    }
    // trace with one header extension holding the number of samples
    void trace(int set, int num, std::vector<std::string> ext, std::string const& samples)
    {
        std::string t(20, 0);
        be(t, 0, 2, 1);
        t[2] = 1;
        t[3] = set;
        be(t, 4, 2, num);
        t[9] = ext.size();
        traces += t;
        for (auto& e : ext) traces += e;
        traces += samples;
    }
    std::string str() const
    {
        std::string r = gh1 + gh2;
        for (auto& a : add) r += a;
        for (auto& c : sets) r += c;
        return r + skew + extd + extl + traces + trailer;
    }
};
inline std::string ext1(unsigned samples)
{
    std::string e(32, 0);
    be(e, 7, 3, samples);
    return e;
}
inline std::string f32(std::vector<float> v)
{
    std::string s(4 * v.size(), 0);
    for (size_t i = 0; i < v.size(); ++i) {
        uint32_t u;
        memcpy(&u, &v[i], 4);
        be(s, 4 * i, 4, u);
    }
    return s;
}
