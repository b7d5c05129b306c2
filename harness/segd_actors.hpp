// SEG-D actors for C20.
#pragma once
#include "segd_model.hpp"
namespace segd {
static ExtMap const act_map { { { 0u, { "A", VT::int32_t } }, { 20u, { "SAMP_NUM", VT::uint16_t } } }, { { 24u, { "B", VT::ieee_double } } } };
// a scale of its own for each file
inline void own_scale(Record& r, int e)
{
    if (r.rev > 2) return;
    for (auto& x : r.sets) for (auto& h : x) set_be(h, 6, 2, (uint64_t)e << 10);
    for (auto& t : r.tr) t.scale = pow(2.0, e);
}
// the input files: one record, then another of the same kind
inline vector<Record> const& act_input(int k)
{
    static vector<Record> f[5];
    if (!f[k].empty()) return f[k];
    Shape s;
    s.chans = 2;
    switch (k) {
    case 0: s.rev = 0; s.format = 8015; s.samples = 8; break;
    case 1: s.rev = 1; s.format = 9036; s.samples = 3; s.n_ext = 1; s.skew = 1; break;
    case 2: s.rev = 2; s.format = 8058; s.samples = 2; s.n_ext = 2; s.extended = 1; s.trailer = 1; break;
    case 3: s.rev = 3; s.format = 8036; s.samples = 3; s.add = 2; s.external = 1; break;
    case 4: s.rev = 2; s.format = 8042; s.samples = 4; s.add = 1; s.sets = 2; s.chans = 1; break;
    }
    Shape t = s;
    t.seed = 4; t.chans = 1; t.sets = 1; t.add = 0;
    f[k] = { build(s), build(t) };
    if (k == 2) for (auto& r : f[k]) for (auto& x : r.tr) set_be(x.ext[0], 20, 2, x.bits.size());
    for (int i = 0; i < 2; ++i) own_scale(f[k][i], 2 * k + i);
    return f[k];
}
static int const act_inputs = 5;
inline ExtMap act_em(int k) { return k == 2 ? act_map : ExtMap {}; }
inline Record make_act_model(int k)
{
    Shape s;
    s.chans = 3;
    ExtMap em;
    switch (k) {
    case 0: s.format = 8015; s.samples = 4; break;
    case 1: s.format = 8044; s.n_ext = 2; s.samples = 2; em = act_map; break;
    case 2: s.format = 9080; s.n_ext = 1; s.add = 1; s.extended = 1; s.skew = 1; break;
    }
    Record r = canonical(s, em);
    if (k == 1) for (auto& x : r.tr) { set_be(x.ext[0], 20, 2, x.bits.size()); set_be(x.ext[1], 24, 8, 0x3ff0000000000001ull); canonical(x, em); }
    own_scale(r, 3 * k + 1);
    return r;
}
static int const act_models = 3;
inline Record const& act_model(int k)
{
    static Record m[act_models] { make_act_model(0), make_act_model(1), make_act_model(2) };
    return m[k];
}
template <class A> struct SegdReader : A {
    int k; string path; std::unique_ptr<ISEGD> r; size_t i = 0, j = 0;
    SegdReader(int k, string p) : k(k), path(p) {}
    int steps() const override { return 5; }
    string step(int s) override
    {
        auto& f = act_input(k);
        if (s == 0) { r = std::make_unique<ISEGD>(path, act_em(k)); return diff_headers(f[0], *r); }
        if (s <= 3) {
            if (!r->has_record() || !r->has_trace()) return "no trace";
            string d = diff_headers(f[i], *r);
            if (d.empty()) d = diff_trace(f[i], f[i].tr[j], r->read_trace(), act_em(k));
            if (++j == f[i].tr.size()) { ++i; j = 0; }
            return d;
        }
        if (r->has_record() || r->has_trace()) return "trace remains";
        r.reset();
        return "";
    }
};
// writes what another reader delivered before
template <class A> struct SegdWriter : A {
    int k; string in, path; std::unique_ptr<Parts> p; std::unique_ptr<sedaman::OSEGDRev2_1> w;
    SegdWriter(int k, string i, string o) : k(k), in(i), path(o), p(std::make_unique<Parts>(in, k == 1 ? act_map : ExtMap {})) {}
    int steps() const override { return 5; }
    string step(int s) override
    {
        if (s == 0) w = p->open(path);
        else if (s <= 3) w->write_trace(p->tr[s - 1]);
        else w.reset();
        return "";
    }
    string final_check() override { return diff(act_model(k).bytes(), slurp(path)); }
};
// copies a record trace by trace
template <class A> struct SegdCopier : A {
    int k; string in, path; std::unique_ptr<ISEGD> r; std::unique_ptr<sedaman::OSEGDRev2_1> w;
    SegdCopier(int k, string i, string o) : k(k), in(i), path(o) {}
    int steps() const override { return 5; }
    string step(int s) override
    {
        if (s == 0) { auto x = std::make_shared<ISEGD>(in); w = Parts(x, {}, 0).open(path); r = std::make_unique<ISEGD>(in); }
        else if (s <= 3) { Trace t = r->read_trace(); w->write_trace(t); }
        else { w.reset(); r.reset(); }
        return "";
    }
    string final_check() override { return diff(act_model(k).bytes(), slurp(path)); }
};
} // namespace segd
static int const segd_actor_kinds = segd::act_inputs + segd::act_models + 1;
inline bool segd_actor_rep(int i) { return i == 0 || i == 3 || i == 5 || i == 6; }
inline void segd_inputs(mc::Ctx& c)
{
    for (int k = 0; k < segd::act_inputs; ++k) {
        std::string b;
        for (auto& r : segd::act_input(k)) b += r.bytes();
        mc::spew(c.path(mc::fmt("in%d.sgd", k).c_str()), b);
    }
    for (int k = 0; k < segd::act_models; ++k) mc::spew(c.path(mc::fmt("model%d.sgd", k).c_str()), segd::act_model(k).bytes());
}
template <class A> std::unique_ptr<A> segd_actor(mc::Ctx& c, int kind, std::string out)
{
    auto in = [&](char const* f, int k) { return c.path(mc::fmt(f, k).c_str()); };
    if (kind < segd::act_inputs) return std::make_unique<segd::SegdReader<A>>(kind, in("in%d.sgd", kind));
    kind -= segd::act_inputs;
    if (kind < segd::act_models) return std::make_unique<segd::SegdWriter<A>>(kind, in("model%d.sgd", kind), out);
    return std::make_unique<segd::SegdCopier<A>>(0, in("model%d.sgd", 0), out);
}
