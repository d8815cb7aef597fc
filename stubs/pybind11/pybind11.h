// The part of pybind11's interface that PyMatching's bindings use, as plain values that the analysis can see through.
// (pybind11 is a git submodule of the repository that is not available offline.)  Every binding that is registered is
// handed, with its Python name, to vp_def, which the witness file provides.
#pragma once
#include <cstddef>
#include <cstdint>
#include <type_traits>
#include <utility>

extern "C" {
[[noreturn]] void vp_oob() noexcept;
[[noreturn]] void vp_overflow() noexcept;
}
template <class F>
void vp_def(const char* python_name, F& f);

namespace pybind11 {
using ssize_t = ptrdiff_t;

// A scipy sparse matrix, or something else that was passed in its place.
struct vp_matrix {
    bool is_csc;
    size_t rows, cols;
    size_t n_data, n_indices, n_indptr;
    uint8_t* data;
    int64_t* indices;
    int64_t* indptr;
};
vp_matrix* vp_eye(size_t n);  // scipy.sparse.eye(n, dtype=uint8, format="csc")
void vp_warned();             // warnings.warn

enum vp_kind : uint8_t { VP_NONE, VP_INT, VP_FLOAT, VP_SET, VP_DICT, VP_TUPLE, VP_MATRIX, VP_ATTR, VP_MODULE, VP_ELLIPSIS, VP_ARRAY };

template <class T, int F = 0>
struct array_t;
struct tuple;
struct dict;
struct arg_v;

inline bool vp_same(const char* a, const char* b) {
    for (size_t i = 0; i < 64; i++) {
        if (a[i] != b[i])
            return false;
        if (a[i] == 0)
            return true;
    }
    vp_overflow();
}

struct object {
    vp_kind kind = VP_NONE;
    int64_t i = 0;
    double d = 0;
    const char* name = nullptr;
    vp_matrix* m = nullptr;
    const void* ref = nullptr;  // tuple, dict or set
    object() = default;
    template <class T>
        requires(std::is_integral_v<T>)
    object(T v) : kind(VP_INT), i((int64_t)v) {
    }
    object(double v) : kind(VP_FLOAT), d(v) {
    }
    object(const std::set<size_t>& s) : kind(VP_SET), ref(new std::set<size_t>(s)) {
    }
    template <class T, int F>
    object(const array_t<T, F>& a) : kind(VP_ARRAY), ref(new array_t<T>(a)) {
    }
    inline object(const tuple& t);
    inline object(const dict& t);
    bool is(const object& o) const {
        return kind == VP_NONE && o.kind == VP_NONE;
    }
    bool is_none() const {
        return kind == VP_NONE;
    }
    object attr(const char* n) const {
        object r;
        r.kind = VP_ATTR;
        r.name = n;
        r.m = m;
        return r;
    }
    template <class... A>
    object operator()(const A&... a) const {
        if (vp_same(name, "warn")) {
            vp_warned();
            return object();
        }
        if constexpr (sizeof...(A) > 0) {
            if (vp_same(name, "eye")) {
                object r;
                r.kind = VP_MATRIX;
                r.m = vp_eye(first(a...));
                return r;
            }
        }
        vp_overflow();
    }
    template <class T>
    T cast() const;
    operator tuple() const;
    const std::set<size_t>& as_set() const {
        return *(const std::set<size_t>*)ref;
    }

   private:
    template <class T, class... A>
    static size_t first(const T& t, const A&...) {
        if constexpr (std::is_integral_v<T>)
            return t;
        else
            vp_overflow();
    }
};
using handle = object;
struct none : object {};
struct int_ : object {
    template <class T>
    int_(T v) : object((int64_t)v) {
    }
};
struct bool_ : object {
    template <class T>
    bool_(T v) : object((int64_t)(bool)v) {
    }
};
struct float_ : object {
    template <class T>
    float_(T v) : object((double)v) {
    }
};
struct str : object {
    template <class T>
    str(const T&) {
        kind = VP_ATTR;
        name = "";
    }
};
struct gil_scoped_release {
    gil_scoped_release() {
    }
};
enum class return_value_policy : uint8_t { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal };
struct ellipsis : object {
    ellipsis() {
        kind = VP_ELLIPSIS;
    }
};
template <class T>
object cast(const T& v) {
    return object(v);
}

struct tuple {
    object e[4];
    size_t n = 0;
    object& operator[](size_t i) {
        if (i >= n)
            vp_oob();
        return e[i];
    }
    const object& operator[](size_t i) const {
        if (i >= n)
            vp_oob();
        return e[i];
    }
    size_t size() const {
        return n;
    }
};
inline object::object(const tuple& t) : kind(VP_TUPLE), ref(new tuple(t)) {
}
inline object::operator tuple() const {
    tuple t;
    if (kind == VP_ATTR && vp_same(name, "shape") && m) {
        t.n = 2;
        t.e[0] = object(m->rows);
        t.e[1] = object(m->cols);
        return t;
    }
    if (kind == VP_TUPLE)
        return *(const tuple*)ref;
    vp_overflow();
}
template <class... A>
tuple make_tuple(const A&... a) {
    tuple t;
    ((t.e[t.n++] = object(a)), ...);
    return t;
}

struct arg_v {
    const char* name;
    object value;
};
struct arg {
    const char* name;
    template <class T>
    arg_v operator=(const T& v) const {
        if constexpr (std::is_constructible_v<object, const T&> && !std::is_convertible_v<const T&, const char*>)
            return arg_v{name, object(v)};
        else
            return arg_v{name, object()};
    }
};
struct kw_only {};
namespace literals {
inline arg operator""_a(const char* n, size_t) {
    return arg{n};
}
}  // namespace literals

struct dict {
    object key[6], val[6];
    size_t n = 0;
    dict() = default;
    template <class... A>
        requires(sizeof...(A) > 0)
    explicit dict(const A&... a) {
        (put(a), ...);
    }
    void put(const arg_v& a) {
        key[n].kind = VP_ATTR;
        key[n].name = a.name;
        val[n] = a.value;
        n++;
    }
    object& operator[](const object& k) {
        for (size_t j = 0; j < n; j++)
            if (key[j].kind == VP_INT && key[j].i == k.i)
                return val[j];
        if (n == 6)
            vp_overflow();
        key[n] = k;
        return val[n++];
    }
    object& operator[](const char* k) {
        for (size_t j = 0; j < n; j++)
            if (key[j].kind == VP_ATTR && vp_same(key[j].name, k))
                return val[j];
        if (n == 6)
            vp_overflow();
        key[n].kind = VP_ATTR;
        key[n].name = k;
        return val[n++];
    }
    size_t size() const {
        return n;
    }
};
inline object::object(const dict& t) : kind(VP_DICT), ref(new dict(t)) {
}
struct list {
    object e[6];
    size_t n = 0;
    list() = default;
    object& operator[](size_t i) {
        if (i >= n)
            vp_oob();
        return e[i];
    }
    void append(const object& o) {
        if (n == 6)
            vp_overflow();
        e[n++] = o;
    }
    size_t size() const {
        return n;
    }
};
inline size_t len(const list& l) {
    return l.n;
}
inline size_t len(const dict& l) {
    return l.n;
}
inline size_t len(const tuple& l) {
    return l.n;
}
struct capsule {
    template <class F>
    capsule(void*, F&&) {
    }
};
struct module_ : object {
    static module_ import(const char* n) {
        module_ m;
        m.kind = VP_MODULE;
        m.name = n;
        return m;
    }
    template <class F, class... X>
    module_& def(const char* name, F&& f, const X&...) {
        vp_def(name, f);
        return *this;
    }
};
using module = module_;
inline bool isinstance(const object& o, const object& type) {
    if (type.kind == VP_ATTR && vp_same(type.name, "csc_matrix"))
        return o.kind == VP_MATRIX && o.m->is_csc;
    vp_overflow();
}
template <class... A>
struct init {};
template <class T>
struct class_ {
    class_(module_&, const char*) {
    }
    template <class F, class... X>
    class_& def(const char* name, F&& f, const X&...) {
        vp_def(name, f);
        return *this;
    }
    template <class... A, class... X>
    class_& def(const init<A...>&, const X&...) {
        return *this;
    }
    template <class... X>
    class_& def_readonly(const X&...) {
        return *this;
    }
    template <class... X>
    class_& def_readwrite(const X&...) {
        return *this;
    }
    template <class... X>
    class_& def_property_readonly(const X&...) {
        return *this;
    }
};

struct buffer_info {
    void* ptr;
    ssize_t size, ndim;
    const ssize_t* shape;
};
template <class T>
struct vp_view1 {
    T* p;
    ssize_t n;
    ssize_t size() const {
        return n;
    }
    ssize_t shape(int) const {
        return n;
    }
    T& operator()(ssize_t i) const {
        if (i < 0 || i >= n)
            vp_oob();
        return p[i];
    }
    T& operator[](ssize_t i) const {
        return (*this)(i);
    }
};
template <class T>
struct vp_view2 {
    T* p;
    ssize_t r, c;
    ssize_t shape(int k) const {
        return k == 0 ? r : c;
    }
    ssize_t size() const {
        return r * c;
    }
    T& operator()(ssize_t i, ssize_t j) const {
        if (i < 0 || j < 0 || i >= r || j >= c)
            vp_oob();
        return p[i * c + j];
    }
};
// An ndarray: copies share the buffer.
struct array {
    static constexpr int c_style = 1, f_style = 2, forcecast = 16;
};
template <class T, int F>
struct array_t {
    T* p = nullptr;
    ssize_t n = 0;
    ssize_t dim[2] = {0, 0};
    int nd = 1;
    bool absent = false;
    struct all {
        array_t& a;
        template <class U>
        all& operator=(const U& v) {
            for (ssize_t i = 0; i < a.n; i++)
                a.p[i] = (T)v;
            return *this;
        }
    };
    array_t() = default;
    template <class N>
        requires(std::is_integral_v<N>)
    explicit array_t(N size) : p(new T[(size_t)size]), n((ssize_t)size), dim{(ssize_t)size, 0} {
    }
    template <class N>
        requires(std::is_integral_v<N>)
    array_t(N size, T* data, const capsule&) : p(data), n((ssize_t)size), dim{(ssize_t)size, 0} {
    }
    array_t(std::initializer_list<ssize_t> l) {
        ssize_t m = 1;
        int k = 0;
        for (auto x : l) {
            if (k < 2)
                dim[k] = x;
            k++;
            m *= x;
        }
        nd = k;
        n = m;
        p = new T[(size_t)m];
    }
    array_t(const array_t&) = default;
    array_t& operator=(const array_t&) = default;
    template <class U, int G>
        requires(std::is_same_v<U, T>)
    array_t(const array_t<U, G>& o) : p(o.p), n(o.n), dim{o.dim[0], o.dim[1]}, nd(o.nd), absent(o.absent) {
    }
    template <class U, int G>
        requires(!std::is_same_v<U, T>)
    array_t(const array_t<U, G>& o) : p(new T[(size_t)o.n]), n(o.n), dim{o.dim[0], o.dim[1]}, nd(o.nd) {
        for (ssize_t i = 0; i < n; i++)
            p[i] = (T)o.p[i];
    }
    bool is(const object& o) const {
        return absent && o.kind == VP_NONE;
    }
    bool is_none() const {
        return absent;
    }
    ssize_t size() const {
        return n;
    }
    ssize_t ndim() const {
        return nd;
    }
    ssize_t shape(int k) const {
        if (k >= nd)
            vp_oob();
        return dim[k];
    }
    const T* data() const {
        return p;
    }
    T* mutable_data() {
        return p;
    }
    template <class... I>
        requires(sizeof...(I) > 0)
    const T* data(I... i) const {
        return &pick(i...);
    }
    template <class... I>
        requires(sizeof...(I) > 0)
    T* mutable_data(I... i) {
        return &pick(i...);
    }
    template <class... I>
    const T& at(I... i) const {
        return pick(i...);
    }
    template <class... I>
    T& mutable_at(I... i) {
        return pick(i...);
    }
    T& pick(ssize_t i) const {
        if (i < 0 || i >= n)
            vp_oob();
        return p[i];
    }
    T& pick(ssize_t i, ssize_t j) const {
        if (i < 0 || j < 0 || i >= dim[0] || j >= dim[1])
            vp_oob();
        return p[i * dim[1] + j];
    }
    ssize_t itemsize() const {
        return sizeof(T);
    }
    ssize_t nbytes() const {
        return n * (ssize_t)sizeof(T);
    }
    array_t reshape(std::initializer_list<ssize_t> l) const {
        array_t r(*this);
        r.resize(l);
        return r;
    }
    buffer_info request() {
        return {p, n, nd, dim};
    }
    void resize(std::initializer_list<ssize_t> l) {
        nd = (int)l.size();
        int k = 0;
        ssize_t m = 1;
        for (auto x : l) {
            dim[k++] = x;
            m *= x;
        }
        if (m != n)
            vp_overflow();
    }
    all operator[](const tuple&) {
        return {*this};
    }
    template <int D>
    auto unchecked() const {
        if constexpr (D == 1)
            return vp_view1<const T>{p, n};
        else
            return vp_view2<const T>{p, dim[0], dim[1]};
    }
    template <int D>
    auto mutable_unchecked() {
        if constexpr (D == 1)
            return vp_view1<T>{p, n};
        else
            return vp_view2<T>{p, dim[0], dim[1]};
    }
};
template <class T>
struct vp_is_array : std::false_type {};
template <class T, int F>
struct vp_is_array<array_t<T, F>> : std::true_type {
    using elem = T;
};
template <class T>
T object::cast() const {
    if constexpr (std::is_integral_v<T>) {
        return (T)i;
    } else if constexpr (std::is_same_v<T, double>) {
        return d;
    } else if constexpr (vp_is_array<T>::value) {
        using E = typename vp_is_array<T>::elem;
        if (kind != VP_ATTR || !m)
            vp_overflow();
        auto fill = [](auto* src, size_t n) {
            T a(n);
            for (size_t k = 0; k < n; k++)
                a.p[k] = (E)src[k];
            return a;
        };
        if (vp_same(name, "data"))
            return fill(m->data, m->n_data);
        if (vp_same(name, "indices"))
            return fill(m->indices, m->n_indices);
        if (vp_same(name, "indptr"))
            return fill(m->indptr, m->n_indptr);
        vp_overflow();
    } else {
        vp_overflow();
    }
}
}  // namespace pybind11
namespace py = pybind11;
#define PYBIND11_MODULE(name, m) void vp_module_##name(pybind11::module_& m)
