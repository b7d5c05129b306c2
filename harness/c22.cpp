// C22: every header field constant and every standard trace header has its own description.
#include "segy_model.hpp"
#include "CommonSEGD.hpp"
#include <functional>
using namespace segy;

struct Field { string id; std::function<char const*()> ask; string text; };
struct Head { string name; vector<Field> f; };
static vector<Head> build()
{
    vector<Head> v;
#define H(a, b) { using T = sedaman::a::b; Head h; h.name = #b;
#define N(e, t) h.f.push_back({ #e, [] { return T::name_as_string(T::Name::e); }, t });
#define E v.push_back(h); }
#define D(n, t)
#include "c22_names.inc"
#undef H
#undef N
#undef E
#undef D
    return v;
}
static vector<std::pair<string, string>> descr()
{
    vector<std::pair<string, string>> v;
#define H(a, b)
#define N(e, t)
#define E
#define D(n, t) v.push_back({ n, t });
#include "c22_names.inc"
#undef H
#undef N
#undef E
#undef D
    return v;
}
static vector<Head> const& heads() { static vector<Head> h = build(); return h; }
static string norm(string const& s)
{
    string r;
    for (unsigned char ch : s) if (isalnum(ch)) r += (char)tolower(ch);
    return r;
}
static size_t distance(string const& a, string const& b)
{
    vector<size_t> d(b.size() + 1);
    for (size_t j = 0; j <= b.size(); ++j) d[j] = j;
    for (size_t i = 1; i <= a.size(); ++i) {
        size_t diag = d[0];
        d[0] = i;
        for (size_t j = 1; j <= b.size(); ++j) {
            size_t t = d[j];
            d[j] = std::min({ d[j] + 1, d[j - 1] + 1, diag + (a[i - 1] != b[j - 1]) });
            diag = t;
        }
    }
    return d[b.size()];
}
// the text must be nearer to the field's own text than to the text of any other field (wording may be edited)
static void own(Ctx& c, string const& where, string const& got, size_t k, vector<string> const& texts)
{
    c.require(!norm(got).empty(), where + " has no description");
    string g = norm(got);
    size_t mine = distance(g, norm(texts[k]));
    if (mine == 0) return;
    for (size_t i = 0; i < texts.size(); ++i)
        if (i != k && distance(g, norm(texts[i])) <= mine) c.fail(fmt("%s is described as \"%s\" instead of \"%s\"", where.c_str(), got.c_str(), texts[k].c_str()));
    if (mine > g.size() / 2) c.fail(fmt("%s is described as \"%s\" instead of \"%s\"", where.c_str(), got.c_str(), texts[k].c_str()));
}
// every constant, after every other one of every header: the texts are its own, distinct and stay valid
static void names(Ctx& c)
{
    size_t h = c.pick((int)heads().size());
    Head const& hd = heads()[h];
    size_t i = c.pick((int)hd.f.size());
    c.shard();
    vector<string> texts;
    for (auto& f : hd.f) texts.push_back(f.text);
    char const* a = hd.f[i].ask();
    c.require(a != nullptr, hd.name + "::" + hd.f[i].id + " has no description");
    string first = a;
    c.step();
    own(c, hd.name + "::" + hd.f[i].id, first, i, texts);
    c.state(hd.name + hd.f[i].id + first);
    for (auto& g : heads())
        for (size_t j = 0; j < g.f.size(); ++j) {
            char const* b = g.f[j].ask();
            c.step();
            c.require(b != nullptr, g.name + "::" + g.f[j].id + " has no description");
            if (&g == &hd && j != i && first == b) c.fail(hd.name + "::" + hd.f[i].id + " and " + g.f[j].id + " have the same description");
            if (first != a) c.fail("the description of " + hd.f[i].id + " changed after asking for " + g.f[j].id);
        }
    c.require(first == hd.f[i].ask(), "the description of " + hd.f[i].id + " is not stable");
}
// every header of the default map, in the main and the extension header, is described
static void standard(Ctx& c)
{
    static vector<std::pair<string, string>> d = descr();
    size_t i = c.pick((int)d.size());
    c.shard();
    vector<string> texts;
    for (auto& x : d) texts.push_back(x.second);
    bool used = false;
    for (auto& blk : CommonSEGY::default_trace_header)
        for (auto& f : blk.second) {
            c.step();
            if (f.second.first == d[i].first) used = true;
            if (!CommonSEGY::trace_header_description.count(f.second.first)) c.fail("standard trace header " + f.second.first + " has no description");
        }
    c.require(used, "standard trace header " + d[i].first + " is missing from the default map");
    string got = CommonSEGY::trace_header_description.at(d[i].first);
    own(c, d[i].first, got, i, texts);
    c.state(d[i].first + got);
    for (auto& x : CommonSEGY::trace_header_description)
        if (x.first != d[i].first && x.second == got) c.fail(d[i].first + " and " + x.first + " have the same description");
}

int main(int argc, char** argv)
{
    return explore_main(argc, argv, { { "names", names }, { "standard", standard } });
}
