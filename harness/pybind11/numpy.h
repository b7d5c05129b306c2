#pragma once
#include "pybind11.h"
namespace pybind11 {
// a container given where a shape is expected is the list of dimensions
struct ShapeContainer {
    vector<ssize_t> v;
    template <class C, class = std::enable_if_t<std::is_convertible_v<decltype(*std::begin(std::declval<C const&>())), ssize_t>>>
    ShapeContainer(C const& c) { for (auto const& x : c) v.push_back((ssize_t)x); }
    template <class I, class = std::enable_if_t<std::is_convertible_v<I, ssize_t>>>
    ShapeContainer(std::initializer_list<I> const& c) { for (auto const& x : c) v.push_back((ssize_t)x); }
};
template <class T, int F = 0> struct array_t {
    vector<ssize_t> shape;
    vector<T> data;
    array_t() : shape { 0 } {}
    explicit array_t(ShapeContainer s, T const* p = nullptr, handle = {}) : shape(std::move(s.v)) { fill(p); }
    explicit array_t(ssize_t n, T const* p = nullptr, handle = {}) : shape { n } { fill(p); }
    array_t(ShapeContainer s, ShapeContainer, T const* p = nullptr, handle = {}) : shape(std::move(s.v)) { fill(p); }
    T* mutable_data() { return data.data(); }
    T const* data_ptr() const { return data.data(); }
    ssize_t size() const { return data.size(); }
    T& mutable_at(ssize_t i) { return data.at(i); }
    struct view { vector<T>* d; T& operator()(ssize_t i) { return (*d)[i]; } };
    view mutable_unchecked() { return { &data }; }
    template <int N> view mutable_unchecked() { return { &data }; }
private:
    void fill(T const* p)
    {
        if (shape.size() > 32) throw value_error("ValueError: maximum supported dimension for an ndarray is 32");
        size_t n = 1;
        for (auto d : shape) {
            if (d < 0) throw value_error("ValueError: negative dimensions are not allowed");
            n *= (size_t)d;
            if (n > 100000000) throw value_error("MemoryError: unable to allocate array");
        }
        data.assign(n, T());
        if (p) for (size_t i = 0; i < n; ++i) data[i] = p[i];
    }
};
} // namespace pybind11
