// Stand-in for pybind11 (not installed here): the part of its interface a binding file uses, with the documented
// meaning, recording everything the module defines so that a harness can call it the way Python would.
#pragma once
#include <any>
#include <cstdint>
#include <cstring>
#include <functional>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <unordered_map>
#include <utility>
#include <variant>
#include <vector>
#include <array>

#define PYBIND11_MODULE(name, var, ...) extern "C" void sedmc_python_module(::pybind11::module_& var)

namespace pybind11 {
using std::any;
using std::string;
using std::type_index;
using std::vector;
using ssize_t = std::ptrdiff_t;

// ---- Python exceptions
struct type_error : std::runtime_error { using runtime_error::runtime_error; };
struct value_error : std::runtime_error { using runtime_error::runtime_error; };
struct index_error : std::runtime_error { using runtime_error::runtime_error; };
struct key_error : std::runtime_error { using runtime_error::runtime_error; };
struct attribute_error : std::runtime_error { using runtime_error::runtime_error; };
struct cast_error : std::runtime_error { using runtime_error::runtime_error; };
struct unicode_error : std::runtime_error { using runtime_error::runtime_error; };
struct stop_iteration : std::runtime_error { stop_iteration(char const* s = "") : runtime_error(s) {} };

enum class return_value_policy { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal };

// ---- Python values: int (int64_t / uint64_t), float, str/bytes (string / bytes), instances, and opaque C++ values
struct bytes {
    string s;
    bytes() {}
    bytes(string v) : s(std::move(v)) {}
    bytes(char const* v) : s(v) {}
    bytes(char const* v, size_t n) : s(v, n) {}
    operator string() const { return s; }
    bool operator==(bytes const& o) const { return s == o.s; }
};
struct str {
    string s;
    str(string v = "") : s(std::move(v)) {}
    str(char const* v) : s(v) {}
    operator string() const { return s; }
};
struct none {};
struct handle {};
struct object {
    any v;
    object() {}
    explicit object(any a) : v(std::move(a)) {}
    template <class T> T cast() const { return std::any_cast<T>(v); }
};
template <class T> object cast(T&& v) { return object(any(std::decay_t<T>(std::forward<T>(v)))); }
struct list : object {
    vector<any> items;
    template <class T> void append(T&& v)
    {
        if constexpr (std::is_base_of_v<object, std::decay_t<T>>) items.push_back(v.v);
        else items.push_back(any(std::decay_t<T>(std::forward<T>(v))));
    }
    size_t size() const { return items.size(); }
};
using Instance = std::shared_ptr<struct InstanceRec>;
struct InstanceRec {
    type_index type;
    void* p;
    std::shared_ptr<void> own;
};

// ---- what the module defines
struct ArgRec {
    string name;
    any dflt;
};
struct FuncRec {
    bool ctor = false, method = false, is_static = false;
    vector<ArgRec> args; // without self
    bool named = false;
    size_t nparams = 0; // without self
    std::function<any(Instance const& self, vector<any>& args)> call;
};
struct AttrRec {
    std::function<any(Instance const&)> get;
    std::function<void(Instance const&, any const&)> set;
};
struct ClassRec {
    string name; // qualified
    type_index type = typeid(void);
    vector<std::pair<type_index, std::function<void*(void*)>>> bases;
    std::map<string, AttrRec> attrs;
    std::map<string, std::function<any()>> statics;
    std::map<string, vector<FuncRec>> funcs;
    std::map<string, any> values; // of an enumeration
};
inline std::map<string, std::shared_ptr<ClassRec>>& classes()
{
    static std::map<string, std::shared_ptr<ClassRec>> c;
    return c;
}
inline std::shared_ptr<ClassRec> class_of(type_index t)
{
    for (auto& c : classes())
        if (c.second->type == t) return c.second;
    return nullptr;
}
inline void* upcast(type_index from, void* p, type_index to)
{
    if (from == to) return p;
    auto c = class_of(from);
    if (!c) return nullptr;
    for (auto& b : c->bases)
        if (void* q = upcast(b.first, b.second(p), to)) return q;
    return nullptr;
}

// ---- conversions
inline bool valid_utf8(string const& s)
{
    for (size_t i = 0; i < s.size();) {
        unsigned char c = s[i];
        int n = c < 0x80 ? 0 : c >= 0xc2 && c < 0xe0 ? 1 : c >= 0xe0 && c < 0xf0 ? 2 : c >= 0xf0 && c < 0xf5 ? 3 : -1;
        if (n < 0 || i + n >= s.size()) return false;
        for (int k = 1; k <= n; ++k)
            if (((unsigned char)s[i + k] & 0xc0) != 0x80) return false;
        if (n == 2 && c == 0xe0 && (unsigned char)s[i + 1] < 0xa0) return false;
        if (n == 2 && c == 0xed && (unsigned char)s[i + 1] > 0x9f) return false;
        if (n == 3 && c == 0xf0 && (unsigned char)s[i + 1] < 0x90) return false;
        if (n == 3 && c == 0xf4 && (unsigned char)s[i + 1] > 0x8f) return false;
        i += n + 1;
    }
    return true;
}
// a C++ text handed to Python becomes a str and has to be UTF-8 (char itself goes through Latin-1)
template <class T> void to_python(T const&) {}
inline void to_python(string const& s) { if (!valid_utf8(s)) throw unicode_error("UnicodeDecodeError: 'utf-8' codec can't decode"); }
inline void to_python(char const* s) { if (s && !valid_utf8(s)) throw unicode_error("UnicodeDecodeError: 'utf-8' codec can't decode"); }
template <class A, class B> void to_python(std::pair<A, B> const& v);
template <class T> void to_python(vector<T> const& v);
template <class T> void to_python(std::optional<T> const& v);
template <class K, class V> void to_python(std::map<K, V> const& v);
template <class K, class V> void to_python(std::unordered_map<K, V> const& v);
template <class A, class B> void to_python(std::pair<A, B> const& v) { to_python(v.first); to_python(v.second); }
template <class T> void to_python(vector<T> const& v) { for (auto const& x : v) to_python(x); }
template <class T> void to_python(std::optional<T> const& v) { if (v) to_python(*v); }
template <class K, class V> void to_python(std::map<K, V> const& v) { for (auto const& x : v) to_python(x); }
template <class K, class V> void to_python(std::unordered_map<K, V> const& v) { for (auto const& x : v) to_python(x); }

template <class T> struct is_variant : std::false_type {};
template <class... T> struct is_variant<std::variant<T...>> : std::true_type {};
template <class T> struct is_optional : std::false_type {};
template <class T> struct is_optional<std::optional<T>> : std::true_type {};

template <class... T> bool int_of(any const& a, __int128& v)
{
    return (... || [&] { if (auto p = std::any_cast<T>(&a)) { v = *p; return true; } return false; }());
}
inline bool python_int(any const& a, __int128& v)
{
    return int_of<bool, signed char, unsigned char, short, unsigned short, int, unsigned, long, unsigned long, long long, unsigned long long>(a, v);
}
inline bool python_float(any const& a, double& v)
{
    if (auto p = std::any_cast<double>(&a)) { v = *p; return true; }
    if (auto p = std::any_cast<float>(&a)) { v = *p; return true; }
    __int128 i;
    if (!python_int(a, i)) return false;
    v = (double)i;
    return true;
}
// argument of C++ type D from a Python value; nothing if it does not fit
template <class D> struct Loaded {
    std::shared_ptr<D> val;
    D* ref = nullptr;
    bool ok() const { return ref || val; }
    template <class... A> void emplace(A&&... a) { val = std::make_shared<D>(std::forward<A>(a)...); }
    D& get() { return ref ? *ref : *val; }
};
template <class D> Loaded<D> load(any const& a)
{
    Loaded<D> r;
    if (auto p = std::any_cast<Instance>(&a)) {
        r.ref = (D*)upcast((*p)->type, (*p)->p, typeid(D));
        return r;
    }
    if constexpr (std::is_copy_constructible_v<D>)
        if (auto p = std::any_cast<D>(&a)) { r.emplace(*p); return r; }
    if constexpr (std::is_integral_v<D>) {
        __int128 v;
        if (!python_int(a, v)) return r;
        if (v < (__int128)std::numeric_limits<D>::min() || v > (__int128)std::numeric_limits<D>::max()) return r;
        r.emplace((D)v);
    } else if constexpr (std::is_floating_point_v<D>) {
        double v;
        if (python_float(a, v)) r.emplace((D)v);
    } else if constexpr (std::is_same_v<D, string>) {
        if (auto p = std::any_cast<bytes>(&a)) r.emplace(p->s);
        else if (auto p = std::any_cast<str>(&a)) r.emplace(p->s);
    } else if constexpr (std::is_same_v<D, bytes>) {
        if (auto p = std::any_cast<string>(&a)) r.emplace(*p);
    } else if constexpr (std::is_same_v<D, vector<string>>) {
        if (auto p = std::any_cast<vector<bytes>>(&a)) {
            r.emplace();
            for (auto& b : *p) r.val->push_back(b.s);
        }
    } else if constexpr (is_variant<D>::value) {
        __int128 v;
        double d;
        if (python_int(a, v)) { if constexpr (std::is_constructible_v<D, int64_t>) r.emplace((int64_t)v); }
        else if (python_float(a, d)) { if constexpr (std::is_constructible_v<D, double>) r.emplace(d); }
    } else if constexpr (is_optional<D>::value) {
        if (std::any_cast<none>(&a)) r.emplace();
        else {
            auto q = load<typename D::value_type>(a);
            if (q.ok()) r.emplace(q.get());
        }
    }
    return r;
}
template <class P> using plain = std::remove_cv_t<std::remove_reference_t<P>>;

template <class R> any result(return_value_policy pol, R&& r)
{
    using D = plain<R>;
    if constexpr (std::is_same_v<D, list>) {
        vector<bytes> b;
        for (auto& x : r.items) {
            if (auto p = std::any_cast<bytes>(&x)) b.push_back(*p);
            else if (auto p = std::any_cast<string>(&x)) { to_python(*p); b.push_back(*p); }
            else return any(r.items);
        }
        return any(b);
    } else if constexpr (std::is_same_v<D, object>) return r.v;
    else if constexpr (std::is_pointer_v<D> && std::is_class_v<std::remove_pointer_t<D>>) {
        using T = std::remove_cv_t<std::remove_pointer_t<D>>;
        if (!r) return none {};
        return std::make_shared<InstanceRec>(InstanceRec { typeid(T), (void*)r, nullptr });
    } else if constexpr (std::is_lvalue_reference_v<R> && std::is_class_v<D>) {
        if (pol == return_value_policy::reference || pol == return_value_policy::reference_internal || !std::is_copy_constructible_v<D>)
            return std::make_shared<InstanceRec>(InstanceRec { typeid(D), (void*)&r, nullptr });
        if constexpr (std::is_copy_constructible_v<D>) {
            to_python(r);
            return any(D(r));
        } else return none {};
    } else {
        to_python(r);
        return any(D(std::forward<R>(r)));
    }
}

struct bad_arguments {}; // the call does not fit this overload

// ---- function signatures
template <class F> struct sig;
template <class R, class... P> struct sig<R(P...)> { using fn = std::function<R(P...)>; using self = void; };
template <class R, class... P> struct sig<R (*)(P...)> : sig<R(P...)> {};
template <class R, class... P> struct sig<R (*)(P...) noexcept> : sig<R(P...)> {};
#define SEDMC_SIG(Q) \
    template <class R, class C, class... P> struct sig<R (C::*)(P...) Q> { using fn = std::function<R(C&, P...)>; using call = std::function<R(P...)>; };
SEDMC_SIG()
SEDMC_SIG(const)
SEDMC_SIG(noexcept)
SEDMC_SIG(const noexcept)
SEDMC_SIG(&)
SEDMC_SIG(const&)
#undef SEDMC_SIG

template <class R, class... P> FuncRec wrap(std::function<R(P...)> f, return_value_policy pol)
{
    FuncRec r;
    r.nparams = sizeof...(P);
    r.call = [f, pol](Instance const&, vector<any>& a) -> any {
        if (a.size() != sizeof...(P)) throw bad_arguments();
        std::tuple<Loaded<plain<P>>...> l;
        size_t i = 0;
        std::apply([&](auto&... x) { ((x = load<std::remove_reference_t<decltype(x.get())>>(a[i++])), ...); }, l);
        bool ok = true;
        std::apply([&](auto&... x) { ((ok = ok && x.ok()), ...); }, l);
        if (!ok) throw bad_arguments();
        return std::apply([&](auto&... x) -> any {
            if constexpr (std::is_void_v<R>) { f(static_cast<P>(x.get())...); return none {}; }
            else return result<R>(pol, f(static_cast<P>(x.get())...));
        }, l);
    };
    return r;
}
template <class F> FuncRec wrap_any(F&& f, return_value_policy pol)
{
    using D = std::decay_t<F>;
    if constexpr (std::is_member_function_pointer_v<D>) return wrap(typename sig<D>::fn(std::mem_fn(f)), pol);
    else if constexpr (std::is_pointer_v<D>) return wrap(typename sig<D>::fn(f), pol);
    else return wrap(typename sig<decltype(&D::operator())>::call(f), pol);
}

// ---- arguments of def
struct arg;
struct arg_v { string name; any value; };
struct arg {
    string name;
    explicit arg(char const* n) : name(n) {}
    template <class T> arg_v operator=(T&& v) const { return { name, any(std::decay_t<T>(std::forward<T>(v))) }; }
    arg& none(bool = true) { return *this; }
    arg& noconvert(bool = true) { return *this; }
};
namespace literals {
inline arg operator""_a(char const* s, size_t) { return arg(s); }
}
// choice of an overload
inline constexpr auto const_ = std::true_type {};
template <class... A> struct overload_cast_impl {
    constexpr overload_cast_impl() {}
    template <class R> constexpr auto operator()(R (*f)(A...)) const noexcept { return f; }
    template <class R, class C> constexpr auto operator()(R (C::*f)(A...), std::false_type = {}) const noexcept { return f; }
    template <class R, class C> constexpr auto operator()(R (C::*f)(A...) const, std::true_type) const noexcept { return f; }
};
template <class... A> inline constexpr overload_cast_impl<A...> overload_cast {};
template <class... T> struct call_guard {};
template <size_t N, size_t P> struct keep_alive {};
struct gil_scoped_release {};
struct doc { doc(char const*) {} };
struct dynamic_attr {};
struct is_method { template <class T> is_method(T const&) {} };
struct is_operator {};
struct prepend {};
struct final_ {};
struct multiple_inheritance {};
struct arithmetic {};
struct module_local { module_local(bool = true) {} };
struct Extras {
    vector<ArgRec> args;
    bool named = false;
    return_value_policy pol = return_value_policy::automatic;
    void add(arg const& a) { args.push_back({ a.name, {} }); named = true; }
    void add(arg_v const& a) { args.push_back({ a.name, a.value }); named = true; }
    void add(return_value_policy p) { pol = p; }
    template <class T> void add(T const&) {} // documentation and the like
};
template <class... E> Extras extras(E const&... e)
{
    Extras r;
    (r.add(e), ...);
    return r;
}
template <class... A> struct init_ {};
template <class... A> init_<A...> init() { return {}; }
template <class F> struct init_factory { F f; };
template <class F> init_factory<F> init(F&& f) { return { std::forward<F>(f) }; }

inline void finish(FuncRec& f, Extras const& e, char const* what)
{
    f.args = e.args;
    f.named = e.named;
    if (f.named && f.args.size() != f.nparams)
        throw std::logic_error(string("the number of argument annotations does not match the number of arguments of ") + what);
}

struct scope_ { string path; };
template <class T, class... O> class class_ : public scope_ {
public:
    std::shared_ptr<ClassRec> c;
    template <class... E> class_(scope_ const& s, char const* name, E const&...)
    {
        path = s.path.empty() ? name : s.path + "." + name;
        c = std::make_shared<ClassRec>();
        c->name = path;
        c->type = typeid(T);
        (add_base<O>(), ...);
        classes()[path] = c;
    }
    template <class F, class... E> class_& def(char const* name, F&& f, E const&... e)
    {
        Extras x = extras(e...);
        using D = std::decay_t<F>;
        FuncRec r = wrap_any(std::forward<F>(f), x.pol);
        if constexpr (!std::is_pointer_v<D>) { r.method = true; --r.nparams; }
        else if (x.named && x.args.size() + 1 == r.nparams) { r.method = true; --r.nparams; }
        finish(r, x, name);
        c->funcs[name].push_back(r);
        return *this;
    }
    template <class F, class... E> class_& def_static(char const* name, F&& f, E const&... e)
    {
        Extras x = extras(e...);
        FuncRec r = wrap_any(std::forward<F>(f), x.pol);
        r.is_static = true;
        finish(r, x, name);
        c->funcs[name].push_back(r);
        return *this;
    }
    template <class... A, class... E> class_& def(init_<A...>, E const&... e)
    {
        std::function<std::shared_ptr<T>(A...)> mk = [](A... a) {
            if constexpr (std::is_constructible_v<T, A...>) return std::shared_ptr<T>(new T(std::forward<A>(a)...));
            else return std::shared_ptr<T>(new T { std::forward<A>(a)... });
        };
        return ctor(mk, extras(e...));
    }
    template <class F, class... E> class_& def(init_factory<F> i, E const&... e)
    {
        typename sig<decltype(&std::decay_t<F>::operator())>::call fn = i.f;
        return factory(fn, extras(e...));
    }
    template <class C, class D, class... E> class_& def_readwrite(char const* name, D C::*pm, E const&...)
    {
        static_assert(std::is_base_of_v<C, T>, "def_readwrite() requires a class member (or base class member)");
        auto& a = c->attrs[name];
        a.get = [pm](Instance const& i) -> any { return result<D const&>(return_value_policy::copy, self(i).*pm); };
        a.set = [pm](Instance const& i, any const& v) {
            auto l = load<D>(v);
            if (!l.ok()) throw type_error("incompatible value");
            self(i).*pm = l.get();
        };
        return *this;
    }
    template <class C, class D, class... E> class_& def_readonly(char const* name, D C::*pm, E const&...)
    {
        c->attrs[name].get = [pm](Instance const& i) -> any { return result<D const&>(return_value_policy::copy, self(i).*pm); };
        return *this;
    }
    template <class G, class S, class... E> class_& def_property(char const* name, G&& g, S&& s, E const&... e)
    {
        def_property_readonly(name, std::forward<G>(g), e...);
        auto f = std::make_shared<FuncRec>(wrap_any(std::forward<S>(s), return_value_policy::automatic));
        c->attrs[name].set = [f](Instance const& i, any const& v) {
            vector<any> a { i, v };
            try { f->call(i, a); } catch (bad_arguments&) { throw type_error("incompatible value"); }
        };
        return *this;
    }
    template <class G, class... E> class_& def_property_readonly(char const* name, G&& g, E const&... e)
    {
        auto f = std::make_shared<FuncRec>(wrap_any(std::forward<G>(g), extras(e...).pol));
        c->attrs[name].get = [f](Instance const& i) -> any {
            vector<any> a { i };
            return f->call(i, a);
        };
        return *this;
    }
    template <class D, class... E> class_& def_readonly_static(char const* name, D const* p, E const&...)
    {
        c->statics[name] = [p]() -> any { return any(std::remove_cv_t<D>(*p)); };
        return *this;
    }
    template <class D, class... E> class_& def_readwrite_static(char const* name, D* p, E const&... e) { return def_readonly_static(name, p, e...); }
    template <class G, class... E> class_& def_property_readonly_static(char const* name, G&& g, E const&...)
    {
        auto f = std::decay_t<G>(std::forward<G>(g));
        c->statics[name] = [f]() mutable -> any {
            if constexpr (std::is_invocable_v<decltype(f), object>) { auto&& v = f(object()); return any(std::decay_t<decltype(v)>(v)); }
            else { auto&& v = f(handle()); return any(std::decay_t<decltype(v)>(v)); }
        };
        return *this;
    }
private:
    static T& self(Instance const& i)
    {
        void* p = upcast(i->type, i->p, typeid(T));
        if (!p) throw type_error("self of another class");
        return *(T*)p;
    }
    template <class B> void add_base()
    {
        if constexpr (std::is_base_of_v<B, T>) c->bases.push_back({ typeid(B), [](void* p) -> void* { return (B*)(T*)p; } });
    }
    template <class... A> class_& ctor(std::function<std::shared_ptr<T>(A...)> mk, Extras const& x)
    {
        std::function<Instance(A...)> fn = [mk](A... a) -> Instance {
            auto p = mk(std::forward<A>(a)...);
            return std::make_shared<InstanceRec>(InstanceRec { typeid(T), p.get(), p });
        };
        FuncRec r = wrap(fn, return_value_policy::automatic);
        r.ctor = true;
        finish(r, x, "__init__");
        c->funcs["__init__"].push_back(r);
        return *this;
    }
    template <class R, class... A> class_& factory(std::function<R(A...)> f, Extras const& x)
    {
        std::function<std::shared_ptr<T>(A...)> mk = [f](A... a) -> std::shared_ptr<T> {
            if constexpr (std::is_pointer_v<R>) return std::shared_ptr<T>(f(std::forward<A>(a)...));
            else if constexpr (std::is_same_v<plain<R>, T>) return std::shared_ptr<T>(new T(f(std::forward<A>(a)...)));
            else return std::shared_ptr<T>(f(std::forward<A>(a)...));
        };
        return ctor(mk, x);
    }
};
template <class E> class enum_ : public class_<E> {
public:
    template <class... X> enum_(scope_ const& s, char const* name, X const&... x) : class_<E>(s, name, x...) {}
    template <class... X> enum_& value(char const* n, E v, X const&...)
    {
        if (!this->c->values.emplace(n, any(v)).second) throw value_error("element already exists");
        return *this;
    }
    enum_& export_values() { return *this; }
};
class module_ : public scope_ {
public:
    std::map<string, vector<FuncRec>> funcs;
    char const*& doc() { static char const* d; return d; }
    template <class F, class... E> module_& def(char const* name, F&& f, E const&... e)
    {
        Extras x = extras(e...);
        FuncRec r = wrap_any(std::forward<F>(f), x.pol);
        r.is_static = true;
        finish(r, x, name);
        funcs[name].push_back(r);
        return *this;
    }
};
using module = module_;

// ---- calling as Python does
using Kw = std::map<string, any>;
inline any call_overloads(vector<FuncRec> const& fs, string const& what, Instance const& self, vector<any> const& pos, Kw const& kw)
{
    for (auto& f : fs) {
        vector<any> a;
        if (self && !f.ctor && !f.is_static) {
            a.push_back(self); // a plain function put into a class gets self when called on an instance
        }
        size_t want = f.nparams + (f.method && self ? 1 : 0);
        if (f.method && !self) continue;
        for (auto& p : pos) a.push_back(p);
        if (a.size() > want) continue;
        size_t first = f.method ? 1 : 0, used = 0;
        bool ok = true;
        for (size_t k = 0; k < f.args.size(); ++k) {
            auto i = kw.find(f.args[k].name);
            if (k + first < a.size()) {
                if (i != kw.end()) ok = false; // given twice
                continue;
            }
            if (i != kw.end()) { a.push_back(i->second); ++used; }
            else if (f.args[k].dflt.has_value()) a.push_back(f.args[k].dflt);
            else ok = false;
            if (!ok) break;
        }
        if (!ok || used != kw.size() || a.size() != want) continue;
        try { return f.call(self, a); } catch (bad_arguments&) { continue; }
    }
    throw type_error("TypeError: " + what + "(): incompatible function arguments");
}
inline std::shared_ptr<ClassRec> cls(string const& name)
{
    auto i = classes().find(name);
    if (i == classes().end()) throw attribute_error("no class " + name);
    return i->second;
}
inline vector<FuncRec> const* find_func(std::shared_ptr<ClassRec> const& c, string const& n)
{
    auto i = c->funcs.find(n);
    if (i != c->funcs.end()) return &i->second;
    for (auto& b : c->bases)
        if (auto k = class_of(b.first))
            if (auto f = find_func(k, n)) return f;
    return nullptr;
}
inline AttrRec const* find_attr(std::shared_ptr<ClassRec> const& c, string const& n)
{
    auto i = c->attrs.find(n);
    if (i != c->attrs.end()) return &i->second;
    for (auto& b : c->bases)
        if (auto k = class_of(b.first))
            if (auto f = find_attr(k, n)) return f;
    return nullptr;
}
inline Instance construct(string const& c, vector<any> const& pos, Kw const& kw = {})
{
    auto k = cls(c);
    auto i = k->funcs.find("__init__"); // constructors are not inherited
    if (i == k->funcs.end()) throw type_error("TypeError: " + c + ": No constructor defined!");
    return std::any_cast<Instance>(call_overloads(i->second, c, nullptr, pos, kw));
}
inline any call(Instance const& self, string const& n, vector<any> const& pos = {}, Kw const& kw = {})
{
    auto k = class_of(self->type);
    if (!k) throw type_error("not a class of the module");
    auto f = find_func(k, n);
    if (!f) throw attribute_error("AttributeError: '" + k->name + "' object has no attribute '" + n + "'");
    return call_overloads(*f, k->name + "." + n, self, pos, kw);
}
inline any call_class(string const& c, string const& n, vector<any> const& pos = {}, Kw const& kw = {})
{
    auto k = cls(c);
    auto f = find_func(k, n);
    if (!f) throw attribute_error("AttributeError: type object '" + c + "' has no attribute '" + n + "'");
    return call_overloads(*f, c + "." + n, nullptr, pos, kw);
}
inline any getattr(Instance const& self, string const& n)
{
    auto k = class_of(self->type);
    auto a = k ? find_attr(k, n) : nullptr;
    if (!a) throw attribute_error("AttributeError: '" + (k ? k->name : string("?")) + "' object has no attribute '" + n + "'");
    return a->get(self);
}
inline void setattr(Instance const& self, string const& n, any const& v)
{
    auto k = class_of(self->type);
    auto a = k ? find_attr(k, n) : nullptr;
    if (!a || !a->set) throw attribute_error("AttributeError: can't set '" + n + "' of '" + (k ? k->name : string("?")) + "'");
    a->set(self, v);
}
inline any getstatic(string const& c, string const& n)
{
    auto k = cls(c);
    auto i = k->statics.find(n);
    if (i == k->statics.end()) throw attribute_error("AttributeError: type object '" + c + "' has no attribute '" + n + "'");
    return i->second();
}
} // namespace pybind11
namespace py11 = pybind11;
