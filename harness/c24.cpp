// C24: the Python module reaches exactly what its names say.
// The module's own code (src/pybind) is compiled against a stand-in for pybind11 and used the way Python would.
#include "pybind11/numpy.h"
#include "segd_model.hpp"
#include "segy_layouts.hpp"
#include <algorithm>
namespace py = pybind11;
using namespace mc;
using std::any;
using std::string;
using std::vector;
using sedaman::CommonSEGD;
using sedaman::CommonSEGY;
using sedaman::ISEGD;
using sedaman::Trace;
using Value = Trace::Header::Value;
using VT = Trace::Header::ValueType;
extern "C" void sedmc_python_module(py::module_&);

static void module_()
{
    static bool done = false;
    if (done) return;
    static py::module_ m;
    sedmc_python_module(m);
    done = true;
}

// ------------------------------------------------------------------ values in a comparable form
static string txt(__int128 v)
{
    bool neg = v < 0;
    if (neg) v = -v;
    string s;
    do { s.insert(s.begin(), (char)('0' + (int)(v % 10))); v /= 10; } while (v);
    return neg ? "-" + s : s;
}
static string flat(string const& v);
static string flat(py::bytes const& v);
static string flat(py::str const& v);
static string flat(char const* v);
static string flat(char* v);
static string flat(double v);
static string flat(float v);
static string flat(bool v);
static string flat(Value const& v);
static string flat(Trace::Header const& h);
static string flat(Trace const& t);
template <class T> string flat(T const& v);
template <class T> string flat(std::optional<T> const& v);
template <class T> string flat(vector<T> const& v);
template <class A, class B> string flat(std::pair<A, B> const& v);
template <class A, class B> string flat(std::map<A, B> const& v);
template <size_t N> string flat(std::array<char, N> const& v);
template <class T> string flat(std::optional<T> const& v) { return v ? "some " + flat(*v) : "none"; }
template <class T> string flat(vector<T> const& v) { string s = fmt("[%zu:", v.size()); for (auto const& x : v) s += flat(x) + ","; return s + "]"; }
template <class A, class B> string flat(std::pair<A, B> const& v) { return "<" + flat(v.first) + ";" + flat(v.second) + ">"; }
template <class A, class B> string flat(std::map<A, B> const& v) { string s = "{"; for (auto const& x : v) s += flat(x); return s + "}"; }
template <size_t N> string flat(std::array<char, N> const& v) { return "'" + string(v.data(), N) + "'"; }
static string flat(string const& v) { return "'" + v + "'"; }
static string flat(py::bytes const& v) { return "'" + v.s + "'"; }
static string flat(py::str const& v) { return "'" + v.s + "'"; }
static string flat(char const* v) { return v ? "'" + string(v) + "'" : "null"; }
static string flat(char* v) { return flat((char const*)v); }
static string flat(double v) { return fmt("%.17g", v); }
static string flat(float v) { return fmt("%.17g", v); }
static string flat(bool v) { return v ? "True" : "False"; }
static string flat(Value const& v) { return v.index() ? "f" + flat(std::get<1>(v)) : "i" + txt(std::get<0>(v)); }
static string flat(Trace::Header const& h)
{
    auto k = h.keys();
    std::sort(k.begin(), k.end());
    string s = "H{";
    for (auto& x : k) s += x + "=" + flat(*h.get(x)) + " ";
    return s + "}";
}
static string flat(Trace const& t) { return "T(" + flat(const_cast<Trace&>(t).header()) + flat(t.samples()) + ")"; }

// ------------------------------------------------------------------ header classes
struct Fld {
    string name;
    int text = 0; // length of a text field
    std::function<string(void*)> get;
    vector<any> values;         // Python values to give
    vector<string> want;        // what the member then is
};
struct Cls {
    string name;
    std::type_index type = typeid(void);
    vector<Fld> f;
    std::function<std::shared_ptr<void>()> make;
};
static string pattern(int n, int k)
{
    string s;
    for (int i = 0; i < n; ++i) s += (char)('A' + (i * 7 + k * 5) % 26);
    return s;
}
template <class C, class D> Fld field(char const* name, D C::*pm)
{
    Fld f;
    f.name = name;
    if constexpr (std::is_array_v<D>) {
        f.text = sizeof(D);
        f.get = [pm](void* o) { return "'" + string(((C*)o)->*pm, sizeof(D)) + "'"; };
        for (int k : { 0, 1 }) {
            f.values.push_back(any(pattern(f.text, k)));
            f.want.push_back("'" + pattern(f.text, k) + "'");
        }
    } else {
        f.get = [pm](void* o) { return flat(((C*)o)->*pm); };
        auto add = [&](any a, D d) { f.values.push_back(a); f.want.push_back(flat(d)); };
        if constexpr (std::is_same_v<D, bool>) add(any(true), true);
        else if constexpr (std::is_integral_v<D>) {
            using L = std::conditional_t<std::is_signed_v<D>, int64_t, uint64_t>;
            for (D v : { std::numeric_limits<D>::max(), (D)1, (D)0x5a, std::numeric_limits<D>::min(), (D)(std::numeric_limits<D>::max() / 3) })
                if (v) add(any((L)v), v);
        } else if constexpr (std::is_floating_point_v<D>) {
            for (double v : { 1.5, -0.25, 1024.0 }) add(any(v), (D)v);
        } else add(any(D()), D());
    }
    return f;
}
template <class T> std::shared_ptr<void> make()
{
    if constexpr (std::is_default_constructible_v<T>) return std::make_shared<T>(T());
    else return std::make_shared<T>(0, 0, 0, 0, 0, 0., 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0);
}
static vector<Cls> const& table()
{
    static vector<Cls> v;
    if (!v.empty()) return v;
#define K(a, b) { using T = sedaman::a::b; Cls k; k.name = #a "." #b; k.type = typeid(T); \
    k.make = make<T>;
#define F(n) k.f.push_back(field(#n, &T::n));
#define E() v.push_back(k); }
#include "c24_fields.inc"
#undef K
#undef F
#undef E
    return v;
}
template <class T> string flat(T const& v)
{
    if constexpr (std::is_enum_v<T>) return "e" + txt((__int128)v);
    else if constexpr (std::is_integral_v<T>) return txt((__int128)v);
    else {
        for (auto& k : table())
            if (k.type == typeid(T)) {
                string s = k.name + "(";
                for (auto& f : k.f) s += f.name + "=" + f.get((void*)&v) + " ";
                if constexpr (std::is_same_v<T, CommonSEGD::ChannelSetHeader>) {
                    T h = v;
                    s += flat(h.number_of_samples()) + flat(h.samp_int()) + flat(h.filter_phase()) + flat(h.physical_unit()) + flat(h.filter_delay()) + flat(h.description());
                }
                return s + ")";
            }
        return string("unknown ") + typeid(T).name();
    }
}
// a Python value that may come in one of several C++ types
template <class... T> struct Types {};
template <class... T> static bool flat_as(any const& a, string& out, Types<T...>)
{
    return (... || [&] { if (auto p = std::any_cast<T>(&a)) { out = flat(*p); return true; } return false; }());
}
static string flat_any(any const& a)
{
    string s;
    if (flat_as(a, s, Types<bool, char, signed char, unsigned char, short, unsigned short, int, unsigned, long, unsigned long, long long, unsigned long long, float, double,
            string, py::bytes, py::str, char const*, char*, Value, std::optional<Value>, vector<string>, vector<Value>, vector<double>, Trace, Trace::Header> {})) return s;
    if (auto p = std::any_cast<py::Instance>(&a)) {
        if ((*p)->type == typeid(Trace)) return flat(*(Trace*)(*p)->p);
        if ((*p)->type == typeid(Trace::Header)) return flat(*(Trace::Header*)(*p)->p);
        for (auto& k : table())
            if (k.type == (*p)->type) {
                string s = k.name + "(";
                for (auto& f : k.f) s += f.name + "=" + f.get((*p)->p) + " ";
                return s + ")";
            }
    }
    if (std::any_cast<py::none>(&a)) return "None";
    return string("something of type ") + a.type().name();
}
// result of a Python call that corresponds to a C++ value of type R
template <class R> static string flat_r(any const& a)
{
    if (auto p = std::any_cast<R>(&a)) return flat(*p);
    if constexpr (py::is_optional<R>::value) {
        if (std::any_cast<py::none>(&a)) return "none";
        if (auto p = std::any_cast<typename R::value_type>(&a)) return "some " + flat(*p);
    }
    return flat_any(a);
}
static string cut(string const& s) { return s.size() > 300 ? s.substr(0, 300) + "..." : s; }
template <class F> static auto guarded(Ctx& c, string const& what, F f)
{
    try { return f(); }
    catch (Violation&) { throw; }
    catch (std::exception& e) { c.fail(what + ": " + e.what()); }
}
static string members(Cls const& k, void* o)
{
    string s;
    for (auto& f : k.f) s += f.name + "=" + f.get(o) + " ";
    return s;
}

// every attribute sets and shows the member of its name and no other, for every ordered pair of attributes
static void fields(Ctx& c)
{
    module_();
    auto& k = table()[c.pick((int)table().size())];
    int i = c.pick((int)k.f.size());
    c.shard();
    int j = c.pick((int)k.f.size());
    auto o = k.make();
    py::Instance in = std::make_shared<py::InstanceRec>(py::InstanceRec { k.type, o.get(), o });
    vector<string> model;
    for (auto& f : k.f) model.push_back(f.get(o.get()));
    auto check = [&](string const& after) {
        for (size_t q = 0; q < k.f.size(); ++q) {
            if (k.f[q].get(o.get()) != model[q]) c.fail(k.name + ": after " + after + " the member " + k.f[q].name + " is " + k.f[q].get(o.get()) + ", expected " + model[q]);
            string g = guarded(c, k.name + "." + k.f[q].name, [&] { return flat_any(py::getattr(in, k.f[q].name)); });
            c.step();
            if (g != model[q]) c.fail(k.name + ": after " + after + " the attribute " + k.f[q].name + " is " + g + ", expected " + model[q]);
        }
    };
    check("creation");
    auto set = [&](int a, int v) {
        auto& f = k.f[a];
        guarded(c, "setting " + k.name + "." + f.name, [&] { py::setattr(in, f.name, f.values[v]); return 0; });
        c.step();
        model[a] = f.want[v];
        check("setting " + f.name);
        Hash h;
        for (auto& m : model) h << m;
        h << k.name;
        c.state(h.h);
    };
    for (size_t v = 0; v < k.f[i].values.size(); ++v) set(i, (int)v);
    set(j, 0);
    set(i, 0);
}
// values a member cannot hold are refused and change nothing
static void refused(Ctx& c)
{
    module_();
    auto& k = table()[c.pick((int)table().size())];
    int i = c.pick((int)k.f.size());
    c.shard();
    auto& f = k.f[i];
    if (f.text) return;
    auto o = k.make();
    py::Instance in = std::make_shared<py::InstanceRec>(py::InstanceRec { k.type, o.get(), o });
    string before = members(k, o.get());
    for (any v : vector<any> { any(string("x")), any(py::none {}), any(vector<double> { 1 }) }) {
        bool ex = false;
        try { py::setattr(in, f.name, v); } catch (py::type_error&) { ex = true; }
        c.step();
        if (!ex) c.fail(k.name + "." + f.name + " took a value that is not a number");
        if (members(k, o.get()) != before) c.fail(k.name + "." + f.name + ": a refused value changed something");
    }
    Hash h;
    h << k.name << f.name;
    c.state(h.h);
}
// text fields: every length over every earlier content; nothing beyond the field is touched
static void texts(Ctx& c)
{
    module_();
    vector<std::pair<int, int>> tf;
    for (size_t a = 0; a < table().size(); ++a)
        for (size_t b = 0; b < table()[a].f.size(); ++b)
            if (table()[a].f[b].text) tf.push_back({ (int)a, (int)b });
    auto w = c.of(tf);
    auto& k = table()[w.first];
    auto& f = k.f[w.second];
    int was = c.pick(3);
    c.shard();
    int n = c.pick(f.text + 4);
    auto o = k.make();
    py::Instance in = std::make_shared<py::InstanceRec>(py::InstanceRec { k.type, o.get(), o });
    // the other text fields hold something already
    for (auto& q : k.f) if (q.text) guarded(c, k.name + "." + q.name, [&] { py::setattr(in, q.name, any(pattern(q.text, 3))); return 0; });
    if (was) guarded(c, k.name + "." + f.name, [&] { py::setattr(in, f.name, any(was == 1 ? pattern(f.text, 4) : string("q"))); return 0; });
    vector<string> model;
    for (auto& q : k.f) model.push_back(q.get(o.get()));
    string t = pattern(n, 9);
    string want = t.substr(0, f.text);
    want.resize(f.text, '\0');
    bool ex = false;
    string before = model[w.second];
    try { py::setattr(in, f.name, any(t)); } catch (std::exception&) { ex = true; }
    c.step();
    if (ex && n <= f.text) c.fail(k.name + "." + f.name + fmt(": a text of %d characters is refused", n));
    model[w.second] = ex ? before : "'" + want + "'"; // a text that is too long may be refused or cut
    for (size_t q = 0; q < k.f.size(); ++q)
        if (k.f[q].get(o.get()) != model[q]) c.fail(k.name + "." + f.name + fmt(" set to %d characters: ", n) + k.f[q].name + " is " + hex(k.f[q].get(o.get())) + ", expected " + hex(model[q]));
    string g = guarded(c, k.name + "." + f.name, [&] { return flat_any(py::getattr(in, f.name)); });
    if (g != model[w.second] && g != "'" + t + "'") c.fail(k.name + "." + f.name + fmt(" set to %d characters shows ", n) + hex(g));
    Hash h;
    h << k.name << f.name << n << was;
    c.state(h.h);
}

// constants, enumeration values and descriptions
static void constants(Ctx& c)
{
    module_();
    struct S { char const* cls; char const* name; string want; };
    vector<S> v;
#define S(a, n) v.push_back({ #a, #n, flat(sedaman::a::n) });
    S(CommonSEGY, default_text_header) S(CommonSEGY, TEXT_HEADER_SIZE) S(CommonSEGY, TR_HEADER_SIZE) S(CommonSEGY, trace_header_description) S(CommonSEGY, default_trace_header)
    S(CommonSEGD, GEN_HDR_SIZE) S(CommonSEGD, GEN_TRLR_SIZE) S(CommonSEGD, CH_SET_HDR_SIZE) S(CommonSEGD, CH_SET_HDR_R3_SIZE) S(CommonSEGD, SKEW_BLOCK_SIZE)
    S(CommonSEGD, EXTENDED_HEADER_SIZE) S(CommonSEGD, EXTERNAL_HEADER_SIZE) S(CommonSEGD, TRACE_HEADER_SIZE) S(CommonSEGD, TRACE_HEADER_EXT_SIZE)
    S(CommonSEGD, sercel_428xl) S(CommonSEGD, sercel_428) S(CommonSEGD, sercel_408)
#undef S
    auto& s = v[c.pick((int)v.size())];
    any a = guarded(c, string(s.cls) + "." + s.name, [&] { return py::getstatic(s.cls, s.name); });
    c.step();
    string g;
    if (!flat_as(a, g, Types<std::map<string, string>, segy::HMap, segd::ExtMap> {})) g = flat_any(a);
    if (g != s.want) c.fail(string(s.cls) + "." + s.name + " is " + cut(g) + ", expected " + cut(s.want));
    c.state(s.name);
}
static void value_types(Ctx& c)
{
    module_();
    static vector<std::pair<char const*, VT>> const v {
#define V(n) { #n, VT::n }
        V(int8_t), V(uint8_t), V(int16_t), V(uint16_t), V(int24_t), V(uint24_t), V(int32_t), V(uint32_t), V(int64_t), V(uint64_t), V(ibm), V(ieee_single), V(ieee_double)
#undef V
    };
    auto& p = v[c.pick((int)v.size())];
    auto k = guarded(c, "Trace.TrHdrValueType", [&] { return py::cls("Trace.TrHdrValueType"); });
    auto i = k->values.find(p.first);
    c.step();
    if (i == k->values.end()) c.fail(string("Trace.TrHdrValueType has no ") + p.first);
    auto e = std::any_cast<VT>(&i->second);
    if (!e || *e != p.second) c.fail(string("Trace.TrHdrValueType.") + p.first + " is another type");
    c.state(p.first);
}
static void descriptions(Ctx& c)
{
    module_();
    struct D { string cls; any v; char const* want; };
    static vector<D> v;
    if (v.empty()) {
#define H(a, b) { using T = sedaman::a::b; string n = #a "." #b;
#define N(e, t) v.push_back({ n, any(T::Name::e), T::name_as_string(T::Name::e) });
#define E }
#define D(n, t)
#include "c22_names.inc"
#undef H
#undef N
#undef E
#undef D
    }
    auto& d = v[c.pick((int)v.size())];
    any a = guarded(c, d.cls + ".name_as_string", [&] { return py::call_class(d.cls, "name_as_string", { d.v }); });
    c.step();
    if (flat_any(a) != flat(d.want)) c.fail(d.cls + ".name_as_string gives " + flat_any(a) + " instead of " + flat(d.want));
    c.state(d.cls + d.want);
}
static void ebcdic(Ctx& c)
{
    module_();
    bool dir = c.flag(), by = c.flag();
    int n = c.pick(3);
    c.shard();
    int first = c.pick(256);
    if (!by && first > 127) return; // str arguments hold ASCII here
    string t;
    for (int i = 0; i < n; ++i) t += (char)(by ? (first + i * 37) % 256 : (first + i * 37) % 128);
    string want = t;
    char const* f = dir ? "ebcdic_to_ascii" : "ascii_to_ebcdic";
    dir ? CommonSEGY::ebcdic_to_ascii(want) : CommonSEGY::ascii_to_ebcdic(want);
    any a = guarded(c, string("CommonSEGY.") + f, [&] { return py::call_class("CommonSEGY", f, { by ? any(py::bytes(t)) : any(t) }); });
    c.step();
    if (flat_any(a) != flat(want)) c.fail(string("CommonSEGY.") + f + "(" + hex(t) + ") gives " + hex(flat_any(a)) + ", expected " + hex(flat(want)));
    Hash h;
    h << dir << by << t;
    c.state(h.h);
}

// ------------------------------------------------------------------ reading SEG-D
struct Getter { char const* name; std::function<string(ISEGD&)> cpp; std::function<string(any const&)> py; };
static vector<Getter> const& getters()
{
    static vector<Getter> v;
    if (!v.empty()) return v;
#define G(n) v.push_back({ #n, [](ISEGD& r) { return flat(r.n()); }, [](any const& a) { return flat_r<std::decay_t<decltype(std::declval<ISEGD&>().n())>>(a); } });
    G(general_header) G(general_header2) G(general_headerN) G(general_header3) G(general_header_vessel_crew_id) G(general_header_survey_name) G(general_header_client_name)
    G(general_header_job_id) G(general_header_line_id) G(general_header_vibrator_info) G(general_header_explosive_info) G(general_header_airgun_info) G(general_header_watergun_info)
    G(general_header_electromagnetic_info) G(general_header_other_source_info) G(general_header_add_source_info) G(general_header_sou_aux_chan_ref) G(general_header_sen_info_hdr_ext_blk)
    G(general_header_sen_calib_blk) G(general_header_time_drift_blk) G(general_header_elemag_src_rec_desc_blk) G(general_header_position_blk_1) G(general_header_position_blk_2)
    G(general_header_position_blk_3) G(general_header_coord_ref_blk) G(general_header_relative_pos_blk) G(general_header_orient_hdr_blk) G(general_header_measurement_blk)
    G(extended_headers) G(external_headers) G(channel_set_headers) G(has_record) G(has_trace)
#undef G
    return v;
}
static segd::Record segd_record(int rev, int blocks, unsigned seed, int chans = 2)
{
    segd::Shape s;
    s.rev = rev; s.sets = 2; s.chans = chans; s.samples = 2; s.extended = 2; s.external = 1; s.seed = seed;
    if (rev == 0 || rev == 1) s.external = 0;
    if (rev == 2) s.add = 2;
    segd::Record m = segd::build(s);
    if (rev == 3) {
        auto& b = segd::blocks();
        for (size_t i = 0; i < b.size(); ++i) {
            if (blocks >= 0 && (int)i != blocks) continue;
            string x = segd::filler(32, 7 * i + seed);
            for (int d : b[i].digits) segd::set_nib(x, d, segd::nib(x, d) % 10);
            x[31] = (char)b[i].type;
            m.add.push_back(x);
        }
        m.ext_counts = true;
    }
    m.fix();
    return m;
}
// every getter gives what the C++ function of its name gives, on records with all, one or no optional blocks
static void segd_headers(Ctx& c)
{
    module_();
    int rev = c.pick(4);
    int b = rev == 3 ? c.pick((int)segd::blocks().size() + 2) - 1 : -1; // all, each alone, none
    c.shard();
    segd::Record m = segd_record(rev, b, 3);
    string p = c.path("f.sgd");
    spew(p, m.bytes());
    auto in = guarded(c, "ISEGD", [&] { return py::construct("ISEGD", { any(p) }); });
    ISEGD r(p);
    for (auto& g : getters()) {
        any a = guarded(c, string("ISEGD.") + g.name, [&] { return py::call(in, g.name); });
        c.step();
        string got = g.py(a), want = g.cpp(r);
        if (got != want) c.fail(fmt("revision %d: ISEGD.", rev) + g.name + " gives " + cut(got) + " instead of " + cut(want));
        Hash h;
        h << rev << b << string(g.name);
        c.state(h.h);
    }
    // functions of a channel set header
    for (auto& v : r.channel_set_headers())
        for (auto s : v) {
            auto p = std::make_shared<CommonSEGD::ChannelSetHeader>(s);
            py::Instance i = std::make_shared<py::InstanceRec>(py::InstanceRec { typeid(CommonSEGD::ChannelSetHeader), p.get(), p });
#define M(n) { any a = guarded(c, "ChannelSetHeader." #n, [&] { return py::call(i, #n); }); c.step(); \
    if (flat_r<decltype(s.n())>(a) != flat(s.n())) c.fail("ChannelSetHeader." #n " gives " + flat_r<decltype(s.n())>(a) + " instead of " + flat(s.n())); }
            M(number_of_samples) M(samp_int) M(filter_phase) M(physical_unit) M(filter_delay) M(description)
#undef M
        }
}
// type() of every further general header block
static void block_type(Ctx& c)
{
    module_();
    auto& k = table()[c.pick((int)table().size())];
    int v = c.pick(256);
    string fn;
    for (auto& f : k.f) if (f.name == "gen_hdr_block_type" || (f.name == "gen_hdr_block_num" && k.name == "CommonSEGD.GeneralHeaderN")) fn = f.name;
    if (fn.empty()) return;
    auto o = k.make();
    py::Instance in = std::make_shared<py::InstanceRec>(py::InstanceRec { k.type, o.get(), o });
    guarded(c, k.name + "." + fn, [&] { py::setattr(in, fn, any((int64_t)v)); return 0; });
    string g = guarded(c, k.name + ".type", [&] { return flat_any(py::call(in, "type")); });
    c.step(2);
    if (g != txt(v)) c.fail(k.name + ".type() gives " + g + fmt(" instead of %d", v));
    Hash h;
    h << k.name << v;
    c.state(h.h);
}
// all histories of queries, reads and iteration over files of several records
static void segd_iteration(Ctx& c)
{
    module_();
    int nrec = 1 + c.pick(2), ch = c.pick(2) + 1;
    c.shard();
    vector<segd::Record> m;
    string b;
    for (int i = 0; i < nrec; ++i) { m.push_back(segd_record(2, -1, i, ch)); b += m.back().bytes(); }
    string p = c.path("f.sgd");
    spew(p, b);
    vector<string> want;
    {
        ISEGD r(p);
        for (auto& x : m) for (size_t k = 0; k < x.tr.size(); ++k) want.push_back(flat(r.read_trace()));
    }
    size_t per = m[0].tr.size();
    auto in = guarded(c, "ISEGD", [&] { return py::construct("ISEGD", {}, { { "file_name", any(p) } }); });
    size_t pos = 0;
    string log;
    int depth = c.thorough() ? 8 : 6;
    for (int k = 0; k < depth; ++k) {
        int op = c.pick(5);
        c.step();
        log += "NRrtI"[op];
        if (op == 0) {
            bool stop = false;
            string g;
            try { g = flat_any(py::call(in, "__next__")); } catch (py::stop_iteration&) { stop = true; } catch (std::exception& e) { c.fail(log + ": __next__: " + e.what()); }
            if (stop != (pos >= want.size())) c.fail(log + (stop ? ": the iteration stops early" : ": the iteration goes on after the last trace"));
            if (!stop && g != want[pos]) c.fail(log + fmt(": __next__ gives another trace than trace %zu: ", pos) + cut(g));
            if (!stop) ++pos;
        } else if (op == 1) {
            if (pos >= want.size()) {
                bool ex = false;
                try { py::call(in, "read_trace"); } catch (std::exception&) { ex = true; }
                if (!ex) c.fail(log + ": a trace is delivered after the last one");
                break; // nothing is promised for a reader after a failure
            }
            string g = guarded(c, "read_trace", [&] { return flat_any(py::call(in, "read_trace")); });
            if (g != want[pos]) c.fail(log + fmt(": read_trace gives another trace than trace %zu: ", pos) + cut(g));
            ++pos;
        } else if (op == 2) {
            if (flat_any(guarded(c, "has_record", [&] { return py::call(in, "has_record"); })) != flat(pos < want.size())) c.fail(log + ": has_record");
        } else if (op == 3) {
            string g = flat_any(guarded(c, "has_trace", [&] { return py::call(in, "has_trace"); }));
            if (pos % per && g != "True") c.fail(log + ": has_trace is false in the middle of a record");
            if (pos == want.size() && g != "False") c.fail(log + ": has_trace is true at the end");
        } else {
            any a = guarded(c, "__iter__", [&] { return py::call(in, "__iter__"); });
            auto i = std::any_cast<py::Instance>(&a);
            if (!i || py::upcast((*i)->type, (*i)->p, in->type) != in->p) c.fail(log + ": __iter__ does not give the reader itself");
        }
        Hash h;
        h << nrec << ch << pos << op;
        c.state(h.h);
    }
}

// ------------------------------------------------------------------ reading SEG-Y
static segy::MFile segy_file(int n, int rev, bool ebc)
{
    segy::Layout l {};
    l.rev = rev; l.endian = segy::BE; l.code = 3; l.fixed = true; l.gap = -1;
    if (rev) l.n_ext = 2;
    if (rev == 2) l.n_trail = 2;
    vector<int> lens(n, 2);
    segy::MFile f = segy::build(l, 2, lens);
    for (int i = 0; i < n; ++i) f.tr[i].hdr["KEY"] = (int64_t)(i == 1 ? 5 : 9 - i % 3); // not in file order
    if (ebc) {
        for (auto& t : f.text) for (auto& x : t) x = (char)(x ^ 0x80);
        for (auto& t : f.trailer) for (auto& x : t) x = (char)(x ^ 0x80);
    }
    return f;
}
static py::Instance py_segy(Ctx& c, bool sorted, string const& p, segy::HMap const& m, int way, segy::Bin const* bin)
{
    string cl = sorted ? "ISEGYSorted1D" : "ISEGY";
    vector<any> pos { any(p) };
    if (sorted) pos.push_back(any(string("KEY")));
    if (bin) pos.push_back(any(*bin));
    pos.push_back(any(m));
    vector<string> names { "file_name" };
    if (sorted) names.push_back("hdr_name");
    if (bin) names.push_back("binary_header");
    names.push_back("tr_hdr_map");
    // the first `way` arguments by position, the others by name
    vector<any> a(pos.begin(), pos.begin() + std::min((size_t)way, pos.size()));
    py::Kw kw;
    for (size_t i = a.size(); i < pos.size(); ++i) kw[names[i]] = pos[i];
    return guarded(c, cl, [&] { return py::construct(cl, a, kw); });
}
static void segy_headers(Ctx& c)
{
    module_();
    bool sorted = c.flag();
    int rev = c.pick(3);
    bool ebc = c.flag(), given = c.flag();
    int way = c.pick(5), n = c.pick(3);
    c.shard();
    segy::MFile f = segy_file(n, rev, ebc);
    string p = c.path("f.sgy");
    spew(p, f.bytes());
    auto in = py_segy(c, sorted, p, f.map, way, given ? &f.bin : nullptr);
    auto ask = [&](char const* m) { c.step(); return guarded(c, string("ISEGY.") + m, [&] { return py::call(in, m); }); };
    auto list = [&](any const& a) -> string {
        if (auto v = std::any_cast<vector<py::bytes>>(&a)) return flat(*v);
        return flat_any(a);
    };
    if (list(ask("text_headers")) != flat(f.text)) c.fail("ISEGY.text_headers gives " + hex(list(ask("text_headers"))));
    if (list(ask("trailer_stanzas")) != flat(f.trailer)) c.fail("ISEGY.trailer_stanzas gives " + hex(list(ask("trailer_stanzas"))));
    if (flat_r<segy::Bin>(ask("binary_header")) != flat(f.bin)) c.fail("ISEGY.binary_header gives " + flat_r<segy::Bin>(ask("binary_header")));
    any b = guarded(c, "ISEGY.read_binary_header", [&] { return py::call_class("ISEGY", "read_binary_header", { any(p) }); });
    if (flat_r<segy::Bin>(b) != flat(f.bin)) c.fail("ISEGY.read_binary_header gives " + flat_r<segy::Bin>(b));
    Hash h;
    h << sorted << rev << ebc << given << way << n;
    c.state(h.h);
}
static void segy_iteration(Ctx& c)
{
    module_();
    bool sorted = c.flag();
    int n = c.pick(4);
    c.shard();
    // the file and the C++ answers are made once per kind and number of traces
    static int last = -1;
    static segy::MFile f;
    static vector<string> want, whdr;
    static string keys;
    static std::map<std::pair<int64_t, uint64_t>, string> gh, gt;
    string p = c.path("f.sgy");
    if (last != sorted * 10 + n) {
        last = sorted * 10 + n;
        f = segy_file(n, 1, false);
        spew(p, f.bytes());
        want.clear();
        whdr.clear();
        std::unique_ptr<sedaman::ISEGY> r(sorted ? new sedaman::ISEGYSorted1D(p, "KEY", f.map) : new sedaman::ISEGY(p, f.map));
        for (int i = 0; i < n; ++i) { Trace t = r->read_trace(); want.push_back(flat(t)); whdr.push_back(flat(t.header())); }
        if (sorted) {
            auto& s = dynamic_cast<sedaman::ISEGYSorted1D&>(*r);
            keys = flat(s.get_keys());
            for (int64_t k : { 9, 5, 1 })
                for (uint64_t l : { 1, 2, 100000 }) { gh[{ k, l }] = flat(s.get_headers(k, l)); gt[{ k, l }] = flat(s.get_traces(k, l)); }
        }
    }
    auto in = py_segy(c, sorted, p, f.map, 9, nullptr);
    int pos = 0;
    string log;
    int depth = c.thorough() ? sorted ? 4 : 7 : sorted ? 3 : 5;
    for (int k = 0; k < depth; ++k) {
        int op = c.pick(sorted ? 8 : 5);
        c.step();
        log += "NRHhIkgG"[op];
        if (op < 3) {
            char const* m = op == 0 ? "__next__" : op == 1 ? "read_trace" : "read_header";
            bool stop = false, ex = false;
            string g;
            try { g = flat_any(py::call(in, m)); } catch (py::stop_iteration&) { stop = true; } catch (std::exception& e) { ex = true; g = e.what(); }
            if (pos < n) {
                if (stop || ex) c.fail(log + ": " + m + (stop ? ": the iteration stops early" : ": " + g));
                if (g != (op == 2 ? whdr : want)[pos]) c.fail(log + ": " + m + fmt(" gives another trace than trace %d: ", pos) + cut(g));
                ++pos;
            } else if (op == 0 ? !stop : !(stop || ex)) c.fail(log + ": " + m + " after the last trace: " + g);
            if (ex) break; // nothing is promised for a reader after a failure
        } else if (op == 3) {
            if (flat_any(guarded(c, "has_trace", [&] { return py::call(in, "has_trace"); })) != flat(pos < n)) c.fail(log + ": has_trace");
        } else if (op == 4) {
            any a = guarded(c, "__iter__", [&] { return py::call(in, "__iter__"); });
            auto i = std::any_cast<py::Instance>(&a);
            if (!i || (py::upcast((*i)->type, (*i)->p, in->type) != in->p && py::upcast(in->type, in->p, (*i)->type) != (*i)->p)) c.fail(log + ": __iter__ does not give the reader itself");
        } else {
            if (op == 5) {
                any a = guarded(c, "get_keys", [&] { return py::call(in, "get_keys"); });
                if (flat_r<vector<Value>>(a) != keys) c.fail(log + ": get_keys gives " + flat_r<vector<Value>>(a));
            } else {
                int64_t key = c.of<int64_t>({ 9, 5, 1 });
                int lim = c.pick(3); // 0: by name 1; 1: default; 2: by position 2
                vector<any> a;
                py::Kw kw;
                if (lim == 0) { kw["value"] = any(key); kw["max_num"] = any((int64_t)1); }
                else { a.push_back(any(key)); if (lim == 2) a.push_back(any((int64_t)2)); }
                uint64_t l = lim == 0 ? 1 : lim == 1 ? 100000 : 2;
                any g = guarded(c, "get_headers/get_traces", [&] { return py::call(in, op == 6 ? "get_headers" : "get_traces", a, kw); });
                string s = op == 6 ? flat_r<vector<Trace::Header>>(g) : flat_r<vector<Trace>>(g);
                string w = (op == 6 ? gh : gt)[{ key, l }];
                if (s != w) c.fail(log + ": gives " + cut(s) + " instead of " + cut(w));
            }
        }
        Hash h;
        h << sorted << n << pos << op;
        c.state(h.h);
    }
}

// ------------------------------------------------------------------ traces
static void traces(Ctx& c)
{
    module_();
    static vector<vector<double>> const smp { {}, { 1.5 }, { 0, 3, -2.5 }, vector<double>(40, 2) };
    auto const& s = c.of(smp);
    int nh = c.pick(3);
    c.shard();
    std::unordered_map<string, Value> h;
    if (nh > 0) h["A"] = (int64_t)7;
    if (nh > 1) h["B"] = 2.5;
    auto in = guarded(c, "Trace", [&] { return py::construct("Trace", { any(h), any(s) }); });
    std::map<string, Value> model(h.begin(), h.end());
    string log;
    for (int k = 0; k < 3; ++k) {
        int op = c.pick(6);
        c.step();
        log += "sngkSK"[op];
        any ha = guarded(c, "Trace.header", [&] { return py::call(in, "header"); });
        auto hp = std::any_cast<py::Instance>(&ha);
        py::Instance hd = hp ? *hp : nullptr;
        if (!hd) { // a copy
            auto q = std::any_cast<Trace::Header>(&ha);
            if (!q) c.fail(log + ": header() is not a header");
            auto o = std::make_shared<Trace::Header>(*q);
            hd = std::make_shared<py::InstanceRec>(py::InstanceRec { typeid(Trace::Header), o.get(), o });
        }
        if (op == 0) {
            string g = flat_any(guarded(c, "Trace.samples", [&] { return py::call(in, "samples"); }));
            if (g != flat(s)) c.fail(log + ": samples are " + cut(g));
        } else if (op == 1) {
            any a = guarded(c, "Trace.samples_as_numpy_array", [&] { return py::call(in, "samples_as_numpy_array"); });
            auto q = std::any_cast<py::array_t<double>>(&a);
            if (!q) c.fail(log + ": samples_as_numpy_array is " + flat_any(a));
            if (q->shape.size() != 1 || (size_t)q->shape[0] != s.size()) c.fail(log + ": the array has shape " + flat(q->shape) + fmt(", expected %zu samples", s.size()));
            if (flat(q->data) != flat(s)) c.fail(log + ": the array holds " + cut(flat(q->data)));
        } else if (op == 2) {
            string key = c.of<char const*>({ "A", "B", "C" });
            any a = guarded(c, "Header.get", [&] { return py::call(hd, "get", { any(key) }); });
            string w = model.count(key) ? "some " + flat(model[key]) : "none";
            if (flat_r<std::optional<Value>>(a) != w) c.fail(log + ": get(" + key + ") gives " + flat_r<std::optional<Value>>(a) + " instead of " + w);
        } else if (op == 3) {
            any a = guarded(c, "Header.keys", [&] { return py::call(hd, "keys"); });
            auto q = std::any_cast<vector<string>>(&a);
            if (!q) c.fail(log + ": keys");
            std::sort(q->begin(), q->end());
            vector<string> w;
            for (auto& x : model) w.push_back(x.first);
            if (*q != w) c.fail(log + ": keys are " + flat(*q));
        } else {
            string key = c.of<char const*>({ "A", "C" });
            Value v = op == 4 ? Value((int64_t)(100 + k)) : Value(k + 0.5);
            any pv = v.index() ? any(std::get<1>(v)) : any(std::get<0>(v));
            if (op == 4) guarded(c, "Header.set", [&] { return py::call(hd, "set", { any(key), pv }); });
            else guarded(c, "Header.set", [&] { return py::call(hd, "set", {}, { { "key", any(key) }, { "v", pv } }); });
            model[key] = v;
        }
        // the trace itself shows it
        Trace& t = *(Trace*)in->p;
        for (auto& x : model) if (!t.header().get(x.first) || flat(*t.header().get(x.first)) != flat(x.second)) c.fail(log + ": the trace does not have " + x.first + " = " + flat(x.second));
        Hash hh;
        hh << (uint64_t)s.size() << op;
        for (auto& x : model) hh << x.first << flat(x.second);
        c.state(hh.h);
    }
    // a header by itself
    auto ho = guarded(c, "Trace.Header", [&] { return py::construct("Trace.Header", { any(h) }); });
    if (flat_any(any(ho)) != flat(Trace::Header(h))) c.fail("Trace.Header holds " + flat_any(any(ho)));
}

// ------------------------------------------------------------------ writing
static void segy_writers(Ctx& c)
{
    module_();
    int rev = c.pick(3);
    int nargs = rev == 2 ? 5 : 4; // with the file name
    int mask = c.pick(1 << (nargs - 1)); // which optional arguments are given
    int way = c.pick(nargs + 1);          // how many by position
    int n = c.pick(3);
    c.shard();
    // arguments given by position have to be the first ones
    for (int i = 1; i < way; ++i) if (!(mask >> (i - 1) & 1)) return;
    vector<string> names = rev == 0 ? vector<string> { "file_name", "text_header", "bin_header", "tr_hdr_map" }
        : rev == 1 ? vector<string> { "file_name", "text_headers", "bin_header", "tr_hdr_map" }
                   : vector<string> { "file_name", "text_headers", "bin_header", "trailer_stanzas", "tr_hdr_map" };
    vector<string> text { segy::text_block('A', 1) };
    if (rev) text.push_back(segy::text_block('B', 2));
    for (auto& t : text) for (auto& x : t) x = (char)(x ^ 0x80);
    vector<string> trailer { segy::text_block('a', 3) };
    segy::Bin bin {};
    bin.format_code = 3; bin.samp_per_tr = 3; bin.job_id = 77; bin.endianness = segy::LE;
    segy::HMap map { { "SEG00000", { { 0, { "TRC_SEQ_LINE", VT::int32_t } }, { 100, { "Q", VT::int16_t } } } } };
    bool gt = mask & 1, gb = mask & 2, gx = rev == 2 && (mask & 4), gm = mask >> (nargs - 2) & 1;
    vector<any> args(nargs);
    args[0] = any(c.path("p.sgy"));
    if (gt) {
        if (rev == 0) args[1] = any(py::bytes(text[0]));
        else { vector<py::bytes> b; for (auto& t : text) b.push_back(py::bytes(t)); args[1] = any(b); }
    }
    if (gb) args[2] = any(bin);
    if (gx) { vector<py::bytes> b; for (auto& t : trailer) b.push_back(py::bytes(t)); args[3] = any(b); }
    if (gm) args[nargs - 1] = any(map);
    vector<any> pos;
    py::Kw kw;
    for (int i = 0; i < nargs; ++i) {
        if (i && !args[i].has_value()) continue;
        if (i < way) pos.push_back(args[i]); else kw[names[i]] = args[i];
    }
    string cl = fmt("OSEGYRev%d", rev);
    auto tr = [&](int i) { return std::pair<std::unordered_map<string, Value>, vector<double>> { { { "TRC_SEQ_LINE", (int64_t)(i + 1) }, { "Q", (int64_t)5 }, { "SAMP_NUM", (int64_t)3 }, { "SAMP_INT", (int64_t)500 } }, { 1.0 + i, -2, 3 } }; };
    {
        auto w = guarded(c, cl, [&] { return py::construct(cl, pos, kw); });
        for (int i = 0; i < n; ++i) {
            auto t = guarded(c, "Trace", [&] { return py::construct("Trace", { any(tr(i).first), any(tr(i).second) }); });
            guarded(c, cl + ".write_trace", [&] { return i ? py::call(w, "write_trace", {}, { { "trace", any(t) } }) : py::call(w, "write_trace", { any(t) }); });
            c.step();
        }
    }
    string q = c.path("c.sgy");
    {
        std::unique_ptr<sedaman::OSEGY> w;
        segy::HMap m = gm ? map : CommonSEGY::default_trace_header;
        segy::Bin b = gb ? bin : segy::Bin();
        if (rev == 0) w = std::make_unique<sedaman::OSEGYRev0>(q, gt ? text[0] : string(), b, m);
        else if (rev == 1) w = std::make_unique<sedaman::OSEGYRev1>(q, gt ? text : vector<string>(), b, m);
        else w = std::make_unique<sedaman::OSEGYRev2>(q, gt ? text : vector<string>(), b, gx ? trailer : vector<string>(), m);
        for (int i = 0; i < n; ++i) { Trace t(tr(i).first, tr(i).second); w->write_trace(t); }
    }
    string d = diff(slurp(q), slurp(c.path("p.sgy")));
    if (!d.empty()) c.fail(cl + fmt(", arguments %d, %d by position: ", mask, way) + d);
    Hash h;
    h << rev << mask << way << n;
    c.state(h.h);
}
static void segd_writer(Ctx& c)
{
    module_();
    int way = c.pick(6), add = c.pick(3), n = c.pick(3);
    c.shard();
    segd::Shape s;
    s.rev = 2; s.sets = 2; s.chans = 1; s.samples = 2;
    segd::Record m = segd::canonical(s);
    if (add == 2) {
        segd::Shape t = s;
        t.add = 2;
        m = segd::canonical(t);
    }
    string src = c.path("s.sgd");
    spew(src, m.bytes());
    auto in = guarded(c, "ISEGD", [&] { return py::construct("ISEGD", { any(src) }); });
    ISEGD r(src);
    // the headers go from the reader to the writer as Python objects
    auto get = [&](char const* f) { return guarded(c, string("ISEGD.") + f, [&] { return py::call(in, f); }); };
    any g2 = get("general_header2");
    if (auto o = std::any_cast<std::optional<CommonSEGD::GeneralHeader2>>(&g2)) g2 = any(CommonSEGD::GeneralHeader2(**o));
    vector<std::shared_ptr<CommonSEGD::AdditionalGeneralHeader>> blk;
    if (add == 2) for (auto& x : r.general_headerN()) blk.push_back(std::make_shared<CommonSEGD::GeneralHeaderN>(x));
    vector<any> args { any(c.path("p.sgd")), get("general_header"), g2, get("channel_set_headers") };
    if (add) args.push_back(any(blk));
    vector<string> names { "file_name", "gh", "gh2", "ch_sets", "add_ghs" };
    vector<any> pos;
    py::Kw kw;
    for (size_t i = 0; i < args.size(); ++i) if ((int)i < way) pos.push_back(args[i]); else kw[names[i]] = args[i];
    auto gh = r.general_header();
    auto gh2 = *r.general_header2();
    auto cs = r.channel_set_headers();
    vector<Trace> tr;
    for (int i = 0; i < n; ++i) tr.push_back(r.read_trace());
    {
        auto w = guarded(c, "OSEGDRev2_1", [&] { return py::construct("OSEGDRev2_1", pos, kw); });
        for (int i = 0; i < n; ++i) {
            auto t = std::make_shared<Trace>(tr[i]);
            py::Instance ti = std::make_shared<py::InstanceRec>(py::InstanceRec { typeid(Trace), t.get(), t });
            guarded(c, "OSEGDRev2_1.write_trace", [&] { return py::call(w, "write_trace", { any(ti) }); });
            c.step();
        }
    }
    string q = c.path("c.sgd");
    {
        sedaman::OSEGDRev2_1 w(q, gh, gh2, cs, blk);
        for (auto& t : tr) w.write_trace(t);
    }
    string d = diff(slurp(q), slurp(c.path("p.sgd")));
    if (!d.empty()) c.fail(fmt("OSEGDRev2_1, %d by position: ", way) + d);
    Hash h;
    h << way << add << n;
    c.state(h.h);
}
// the map given to a SEG-D reader
static void segd_map(Ctx& c)
{
    module_();
    int given = c.pick(3);
    c.shard();
    segd::Shape s;
    s.rev = 2; s.n_ext = 2; s.chans = 2;
    segd::Record m = segd::build(s);
    string p = c.path("f.sgd");
    spew(p, m.bytes());
    segd::ExtMap em { { { 0, { "P", VT::uint16_t } } }, { { 3, { "Q", VT::int24_t } } } };
    auto in = guarded(c, "ISEGD", [&] { return given == 0 ? py::construct("ISEGD", { any(p) }) : given == 1 ? py::construct("ISEGD", { any(p), any(em) })
        : py::construct("ISEGD", { any(p) }, { { "ext_tr_hdr_map", any(em) } }); });
    ISEGD r(p, given ? em : segd::ExtMap());
    for (int k = 0; k < 2; ++k) {
        string g = guarded(c, "read_trace", [&] { return flat_any(py::call(in, "read_trace")); });
        c.step();
        string w = flat(r.read_trace());
        if (g != w) c.fail(fmt("trace %d: ", k) + cut(g) + " instead of " + cut(w));
    }
    c.state(fmt("%d", given));
}

int main(int argc, char** argv)
{
    return explore_main(argc, argv, { { "fields", fields }, { "refused", refused }, { "texts", texts }, { "constants", constants }, { "value_types", value_types },
        { "descriptions", descriptions }, { "ebcdic", ebcdic }, { "segd_headers", segd_headers }, { "block_type", block_type }, { "segd_iteration", segd_iteration },
        { "segy_headers", segy_headers }, { "segy_iteration", segy_iteration }, { "traces", traces }, { "segy_writers", segy_writers }, { "segd_writer", segd_writer }, { "segd_map", segd_map } });
}
