// Shared by the witnesses about the Python bindings: registering the bindings calls the one that is wanted with the
// arguments prepared in the globals below, and leaves what it returned in other globals.
#pragma once
#include "driver.h"
#include "reject.h"
#include "pybind11/pybind11.h"
#include "pybind11/numpy.h"
#include "pybind11/stl.h"
namespace py = pybind11;
static const char* wanted;
static bool was_called;
static unsigned n_warned;
static UserGraph* G;
inline void py::vp_warned() {
    n_warned++;
}
template <class T>
inline py::array_t<T> array1(T* p, size_t n) {
    py::array_t<T> a;
    a.p = p;
    a.n = (py::ssize_t)n;
    a.dim[0] = (py::ssize_t)n;
    return a;
}
template <class T>
inline py::array_t<T> array2(T* p, size_t r, size_t c) {
    py::array_t<T> a;
    a.p = p;
    a.n = (py::ssize_t)(r * c);
    a.dim[0] = (py::ssize_t)r;
    a.dim[1] = (py::ssize_t)c;
    a.nd = 2;
    return a;
}
inline bool named(const char* n) {
    return py::vp_same(n, wanted);
}
