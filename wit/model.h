// Analysis-friendly models of the standard containers used by the repository.
//
// The repository's sources are compiled (never executed) with these models in place of std::vector,
// std::set, std::map, std::list and std::array, so that LLVM's scalar replacement and value numbering can
// see through container operations.  Semantics follow the standard; storage is inline with a fixed
// capacity (exceeding it ends the path in vp_overflow, which no witness relies on).
#pragma once
#include <algorithm>
#include <array>
#include <any>
#include <atomic>
#include <bit>
#include <bitset>
#include <charconv>
#include <complex>
#include <condition_variable>
#include <future>
#include <numbers>
#include <shared_mutex>
#include <source_location>
#include <typeindex>
#include <typeinfo>
#include <valarray>
#include <cassert>
#include <cfloat>
#include <chrono>
#include <climits>
#include <cmath>
#include <compare>
#include <concepts>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <deque>
#include <exception>
#include <filesystem>
#include <fstream>
#include <forward_list>
#include <functional>
#include <initializer_list>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <new>
#include <numeric>
#include <optional>
#include <queue>
#include <random>
#include <ranges>
#include <set>
#include <span>
#include <sstream>
#include <stack>
#include <stdexcept>
#include <string>
#include <string_view>
#include <thread>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>

#ifndef VP_CAP
#define VP_CAP 5
#endif
#ifndef VP_MAPCAP
#define VP_MAPCAP 4
#endif

extern "C" {
[[noreturn]] void vp_overflow() noexcept;  // model capacity exceeded
[[noreturn]] void vp_oob() noexcept;       // element access outside the container
[[noreturn]] void vp_thrown();             // the repository threw (see wit.h)
}

namespace std {

template <class T>
struct vp_vector {
    using value_type = T;
    using size_type = size_t;
    using difference_type = ptrdiff_t;
    using iterator = T*;
    using const_iterator = const T*;
    using reverse_iterator = std::reverse_iterator<T*>;
    using const_reverse_iterator = std::reverse_iterator<const T*>;
    using reference = T&;
    using const_reference = const T&;
    using pointer = T*;
    using const_pointer = const T*;

    size_t vp_n;
    alignas(T) unsigned char vp_buf[VP_CAP * sizeof(T)];

    T* p() noexcept {
        return reinterpret_cast<T*>(vp_buf);
    }
    const T* p() const noexcept {
        return reinterpret_cast<const T*>(vp_buf);
    }
    void need(size_t n) const {
        if (n > VP_CAP)
            vp_overflow();
    }
    vp_vector() noexcept : vp_n(0) {
    }
    explicit vp_vector(size_t n) : vp_n(0) {
        resize(n);
    }
    vp_vector(size_t n, const T& v) : vp_n(0) {
        resize(n, v);
    }
    vp_vector(std::initializer_list<T> l) : vp_n(0) {
        for (auto& x : l)
            push_back(x);
    }
    template <class It>
        requires(!std::is_integral_v<It>)
    vp_vector(It a, It b) : vp_n(0) {
        for (; a != b; ++a)
            push_back(*a);
    }
    vp_vector(const vp_vector& o) : vp_n(0) {
        size_t n = o.vp_n;
        for (size_t i = 0; i < n; i++)
            new (p() + i) T(o.p()[i]);
        vp_n = n;
    }
    vp_vector(vp_vector&& o) noexcept : vp_n(0) {
        size_t n = o.vp_n;
        for (size_t i = 0; i < n; i++)
            new (p() + i) T(std::move(o.p()[i]));
        vp_n = n;
        o.clear();
    }
    vp_vector& operator=(const vp_vector& o) {
        if (this != &o) {
            clear();
            size_t n = o.vp_n;
            for (size_t i = 0; i < n; i++)
                new (p() + i) T(o.p()[i]);
            vp_n = n;
        }
        return *this;
    }
    vp_vector& operator=(vp_vector&& o) noexcept {
        if (this != &o) {
            clear();
            size_t n = o.vp_n;
            for (size_t i = 0; i < n; i++)
                new (p() + i) T(std::move(o.p()[i]));
            vp_n = n;
            o.clear();
        }
        return *this;
    }
    vp_vector& operator=(std::initializer_list<T> l) {
        clear();
        for (auto& x : l)
            push_back(x);
        return *this;
    }
    ~vp_vector() {
        clear();
    }
    void assign(size_t n, const T& v) {
        T t(v);
        clear();
        resize(n, t);
    }
    template <class It>
        requires(!std::is_integral_v<It>)
    void assign(It a, It b) {
        clear();
        for (; a != b; ++a)
            push_back(*a);
    }
    void assign(std::initializer_list<T> l) {
        *this = l;
    }
    size_t size() const noexcept {
        return vp_n;
    }
    size_t capacity() const noexcept {
        return VP_CAP;
    }
    size_t max_size() const noexcept {
        return VP_CAP;
    }
    bool empty() const noexcept {
        return vp_n == 0;
    }
    void reserve(size_t) {
    }
    void shrink_to_fit() {
    }
    T& operator[](size_t i) {
        if (i >= vp_n)
            vp_oob();
        return p()[i];
    }
    const T& operator[](size_t i) const {
        if (i >= vp_n)
            vp_oob();
        return p()[i];
    }
    T& at(size_t i) {
        if (i >= vp_n)
            vp_thrown();
        return p()[i];
    }
    const T& at(size_t i) const {
        if (i >= vp_n)
            vp_thrown();
        return p()[i];
    }
    T& front() {
        return (*this)[0];
    }
    const T& front() const {
        return (*this)[0];
    }
    T& back() {
        return (*this)[vp_n - 1];
    }
    const T& back() const {
        return (*this)[vp_n - 1];
    }
    T* data() noexcept {
        return p();
    }
    const T* data() const noexcept {
        return p();
    }
    iterator begin() noexcept {
        return p();
    }
    iterator end() noexcept {
        return p() + vp_n;
    }
    const_iterator begin() const noexcept {
        return p();
    }
    const_iterator end() const noexcept {
        return p() + vp_n;
    }
    const_iterator cbegin() const noexcept {
        return p();
    }
    const_iterator cend() const noexcept {
        return p() + vp_n;
    }
    reverse_iterator rbegin() noexcept {
        return reverse_iterator(end());
    }
    reverse_iterator rend() noexcept {
        return reverse_iterator(begin());
    }
    const_reverse_iterator rbegin() const noexcept {
        return const_reverse_iterator(end());
    }
    const_reverse_iterator rend() const noexcept {
        return const_reverse_iterator(begin());
    }
    const_reverse_iterator crbegin() const noexcept {
        return const_reverse_iterator(end());
    }
    const_reverse_iterator crend() const noexcept {
        return const_reverse_iterator(begin());
    }
    void push_back(const T& v) {
        need(vp_n + 1);
        new (p() + vp_n) T(v);
        vp_n++;
    }
    void push_back(T&& v) {
        need(vp_n + 1);
        new (p() + vp_n) T(std::move(v));
        vp_n++;
    }
    template <class... A>
    T& emplace_back(A&&... a) {
        need(vp_n + 1);
        if constexpr (std::is_constructible_v<T, A...>)
            new (p() + vp_n) T(std::forward<A>(a)...);
        else
            new (p() + vp_n) T{std::forward<A>(a)...};
        vp_n++;
        return p()[vp_n - 1];
    }
    void pop_back() {
        if (vp_n == 0)
            vp_oob();
        vp_n--;
        p()[vp_n].~T();
    }
    void clear() noexcept {
        if constexpr (!std::is_trivially_destructible_v<T>)
            for (size_t i = 0; i < vp_n; i++)
                p()[i].~T();
        vp_n = 0;
    }
    void resize(size_t n) {
        need(n);
        while (vp_n > n)
            pop_back();
        while (vp_n < n)
            emplace_back();
    }
    void resize(size_t n, const T& v) {
        need(n);
        while (vp_n > n)
            pop_back();
        while (vp_n < n)
            push_back(v);
    }
    iterator insert(const_iterator pos, const T& v) {
        T t(v);
        return insert(pos, std::move(t));
    }
    iterator insert(const_iterator pos, T&& v) {
        size_t k = pos - p();
        T t(std::move(v));
        need(vp_n + 1);
        if (k == vp_n) {
            new (p() + vp_n) T(std::move(t));
            vp_n++;
            return p() + k;
        }
        new (p() + vp_n) T(std::move(p()[vp_n - 1]));
        for (size_t i = vp_n - 1; i > k; i--)
            p()[i] = std::move(p()[i - 1]);
        vp_n++;
        p()[k] = std::move(t);
        return p() + k;
    }
    iterator insert(const_iterator pos, size_t cnt, const T& v) {
        size_t k = pos - p();
        T t(v);
        for (size_t c = 0; c < cnt; c++)
            insert(p() + k, t);
        return p() + k;
    }
    template <class It>
        requires(!std::is_integral_v<It>)
    iterator insert(const_iterator pos, It a, It b) {
        size_t k = pos - p();
        size_t j = k;
        for (; a != b; ++a)
            insert(p() + j++, T(*a));
        return p() + k;
    }
    iterator insert(const_iterator pos, std::initializer_list<T> l) {
        return insert(pos, l.begin(), l.end());
    }
    template <class... A>
    iterator emplace(const_iterator pos, A&&... a) {
        return insert(pos, T(std::forward<A>(a)...));
    }
    iterator erase(const_iterator pos) {
        size_t k = pos - p();
        for (size_t i = k; i + 1 < vp_n; i++)
            p()[i] = std::move(p()[i + 1]);
        pop_back();
        return p() + k;
    }
    iterator erase(const_iterator a, const_iterator b) {
        size_t k = a - p(), c = b - a;
        for (size_t i = 0; i < c; i++)
            erase(p() + k);
        return p() + k;
    }
    void swap(vp_vector& o) noexcept {
        vp_vector t(std::move(o));
        o = std::move(*this);
        *this = std::move(t);
    }
    bool operator==(const vp_vector& o) const {
        if (vp_n != o.vp_n)
            return false;
        for (size_t i = 0; i < vp_n; i++)
            if (!(p()[i] == o.p()[i]))
                return false;
        return true;
    }
    bool operator!=(const vp_vector& o) const {
        return !(*this == o);
    }
    bool operator<(const vp_vector& o) const {
        return std::lexicographical_compare(begin(), end(), o.begin(), o.end());
    }
};

#ifdef VP_COLLAPSE_ARRAY
// All slots collapsed into one: used where the witness is about *what* is enqueued, not into which bucket.
template <class T, size_t N>
struct vp_array {
    T e[1];
    T& operator[](size_t) {
        return e[0];
    }
    const T& operator[](size_t) const {
        return e[0];
    }
    constexpr size_t size() const {
        return N;
    }
    T* begin() {
        return e;
    }
    T* end() {
        return e + 1;
    }
    const T* begin() const {
        return e;
    }
    const T* end() const {
        return e + 1;
    }
};
#else
template <class T, size_t N>
struct vp_array {
    T e[N];
    T& operator[](size_t i) {
        if (i >= N)
            vp_oob();
        return e[i];
    }
    const T& operator[](size_t i) const {
        if (i >= N)
            vp_oob();
        return e[i];
    }
    constexpr size_t size() const {
        return N;
    }
    T& front() {
        return e[0];
    }
    T& back() {
        return e[N - 1];
    }
    T* data() {
        return e;
    }
    T* begin() {
        return e;
    }
    T* end() {
        return e + N;
    }
    const T* begin() const {
        return e;
    }
    const T* end() const {
        return e + N;
    }
};
#endif

// Sorted set.
template <class K>
struct vp_set {
    using value_type = K;
    using key_type = K;
    using iterator = const K*;
    using const_iterator = const K*;
    vp_vector<K> v;
    vp_set() {
    }
    vp_set(std::initializer_list<K> l) {
        for (auto& x : l)
            insert(x);
    }
    template <class It>
    vp_set(It a, It b) {
        for (; a != b; ++a)
            insert(*a);
    }
    iterator begin() const {
        return v.begin();
    }
    iterator end() const {
        return v.end();
    }
    iterator cbegin() const {
        return v.begin();
    }
    iterator cend() const {
        return v.end();
    }
    auto rbegin() const {
        return v.rbegin();
    }
    auto rend() const {
        return v.rend();
    }
    size_t size() const {
        return v.size();
    }
    bool empty() const {
        return v.empty();
    }
    void clear() {
        v.clear();
    }
    iterator find(const K& k) const {
        for (size_t i = 0; i < v.vp_n; i++)
            if (v.p()[i] == k)
                return v.p() + i;
        return end();
    }
    size_t count(const K& k) const {
        return find(k) != end();
    }
    bool contains(const K& k) const {
        return find(k) != end();
    }
    std::pair<iterator, bool> insert(const K& k) {
        size_t i = 0;
        for (; i < v.vp_n; i++) {
            if (v.p()[i] == k)
                return {v.p() + i, false};
            if (k < v.p()[i])
                break;
        }
        v.insert(v.p() + i, k);
        return {v.p() + i, true};
    }
    template <class... A>
    std::pair<iterator, bool> emplace(A&&... a) {
        return insert(K(std::forward<A>(a)...));
    }
    template <class It>
    void insert(It a, It b) {
        for (; a != b; ++a)
            insert(*a);
    }
    iterator erase(iterator it) {
        return v.erase(it);
    }
    size_t erase(const K& k) {
        auto it = find(k);
        if (it == end())
            return 0;
        v.erase(it);
        return 1;
    }
    void swap(vp_set& o) {
        v.swap(o.v);
    }
    bool operator==(const vp_set& o) const {
        return v == o.v;
    }
    bool operator!=(const vp_set& o) const {
        return !(v == o.v);
    }
};

// Sorted map; values never move once inserted.
template <class K, class V>
struct vp_map {
    using value_type = std::pair<const K, V>;
    using key_type = K;
    using mapped_type = V;
    alignas(value_type) unsigned char vp_slots[VP_MAPCAP * sizeof(value_type)];
    unsigned char vp_ord[VP_MAPCAP];
    size_t vp_n;
    value_type* s(size_t i) {
        return reinterpret_cast<value_type*>(vp_slots) + i;
    }
    const value_type* s(size_t i) const {
        return reinterpret_cast<const value_type*>(vp_slots) + i;
    }
    template <class M, class R>
    struct it_ {
        using value_type = R;
        using difference_type = ptrdiff_t;
        using reference = R&;
        using pointer = R*;
        using iterator_category = std::bidirectional_iterator_tag;
        M* m;
        size_t i;
        R& operator*() const {
            return *m->s(m->vp_ord[i]);
        }
        R* operator->() const {
            return m->s(m->vp_ord[i]);
        }
        it_& operator++() {
            ++i;
            return *this;
        }
        it_ operator++(int) {
            auto t = *this;
            ++i;
            return t;
        }
        it_& operator--() {
            --i;
            return *this;
        }
        bool operator==(const it_& o) const {
            return i == o.i;
        }
        bool operator!=(const it_& o) const {
            return i != o.i;
        }
    };
    using iterator = it_<vp_map, value_type>;
    using const_iterator = it_<const vp_map, const value_type>;
    vp_map() : vp_n(0) {
    }
    vp_map(std::initializer_list<value_type> l) : vp_n(0) {
        for (auto& x : l)
            (*this)[x.first] = x.second;
    }
    vp_map(const vp_map& o) : vp_n(0) {
        for (size_t i = 0; i < o.vp_n; i++) {
            new (s(i)) value_type(*o.s(i));
            vp_ord[i] = o.vp_ord[i];
        }
        vp_n = o.vp_n;
    }
    vp_map(vp_map&& o) noexcept : vp_n(0) {
        for (size_t i = 0; i < o.vp_n; i++) {
            new (s(i)) value_type(std::move(*o.s(i)));
            vp_ord[i] = o.vp_ord[i];
        }
        vp_n = o.vp_n;
        o.clear();
    }
    vp_map& operator=(const vp_map& o) {
        if (this != &o) {
            this->~vp_map();
            new (this) vp_map(o);
        }
        return *this;
    }
    vp_map& operator=(vp_map&& o) {
        if (this != &o) {
            this->~vp_map();
            new (this) vp_map(std::move(o));
        }
        return *this;
    }
    ~vp_map() {
        clear();
    }
    void clear() {
        for (size_t i = 0; i < vp_n; i++)
            s(i)->~value_type();
        vp_n = 0;
    }
    size_t size() const {
        return vp_n;
    }
    bool empty() const {
        return vp_n == 0;
    }
    iterator begin() {
        return {this, 0};
    }
    iterator end() {
        return {this, vp_n};
    }
    const_iterator begin() const {
        return {this, 0};
    }
    const_iterator end() const {
        return {this, vp_n};
    }
    const_iterator cbegin() const {
        return begin();
    }
    const_iterator cend() const {
        return end();
    }
    size_t pos_(const K& k) const {
        for (size_t i = 0; i < vp_n; i++)
            if (s(vp_ord[i])->first == k)
                return i;
        return vp_n;
    }
    iterator find(const K& k) {
        return {this, pos_(k)};
    }
    const_iterator find(const K& k) const {
        return {this, pos_(k)};
    }
    size_t count(const K& k) const {
        return pos_(k) != vp_n;
    }
    bool contains(const K& k) const {
        return pos_(k) != vp_n;
    }
    V& operator[](const K& k) {
        size_t j = pos_(k);
        if (j != vp_n)
            return s(vp_ord[j])->second;
        if (vp_n + 1 > VP_MAPCAP)
            vp_overflow();
        new (s(vp_n)) value_type(std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple());
        size_t i = vp_n;
        while (i > 0 && k < s(vp_ord[i - 1])->first) {
            vp_ord[i] = vp_ord[i - 1];
            i--;
        }
        vp_ord[i] = (unsigned char)vp_n;
        vp_n++;
        return s(vp_ord[i])->second;
    }
    V& at(const K& k) {
        size_t j = pos_(k);
        if (j == vp_n)
            vp_thrown();
        return s(vp_ord[j])->second;
    }
    const V& at(const K& k) const {
        size_t j = pos_(k);
        if (j == vp_n)
            vp_thrown();
        return s(vp_ord[j])->second;
    }
    template <class... A>
    std::pair<iterator, bool> emplace(const K& k, A&&... a) {
        size_t j = pos_(k);
        if (j != vp_n)
            return {{this, j}, false};
        (*this)[k] = V(std::forward<A>(a)...);
        return {{this, pos_(k)}, true};
    }
    template <class... A>
    std::pair<iterator, bool> try_emplace(const K& k, A&&... a) {
        return emplace(k, std::forward<A>(a)...);
    }
    std::pair<iterator, bool> insert(const value_type& kv) {
        return emplace(kv.first, kv.second);
    }
    template <class U>
    std::pair<iterator, bool> insert_or_assign(const K& k, U&& u) {
        (*this)[k] = std::forward<U>(u);
        return {{this, pos_(k)}, true};
    }
    bool operator==(const vp_map& o) const {
        if (vp_n != o.vp_n)
            return false;
        for (size_t i = 0; i < vp_n; i++)
            if (!(*s(vp_ord[i]) == *o.s(o.vp_ord[i])))
                return false;
        return true;
    }
};

// Append-only list with stable element addresses.
template <class T>
struct vp_list {
    using value_type = T;
    vp_vector<T> v;
    struct iterator {
        using value_type = T;
        using difference_type = ptrdiff_t;
        using reference = T&;
        using pointer = T*;
        using iterator_category = std::bidirectional_iterator_tag;
        T* q;
        T& operator*() const {
            return *q;
        }
        T* operator->() const {
            return q;
        }
        iterator& operator++() {
            ++q;
            return *this;
        }
        iterator operator++(int) {
            auto t = *this;
            ++q;
            return t;
        }
        iterator& operator--() {
            --q;
            return *this;
        }
        iterator operator--(int) {
            auto t = *this;
            --q;
            return t;
        }
        bool operator==(const iterator& o) const {
            return q == o.q;
        }
        bool operator!=(const iterator& o) const {
            return q != o.q;
        }
    };
    struct const_iterator {
        using value_type = T;
        using difference_type = ptrdiff_t;
        using reference = const T&;
        using pointer = const T*;
        using iterator_category = std::bidirectional_iterator_tag;
        const T* q;
        const T& operator*() const {
            return *q;
        }
        const T* operator->() const {
            return q;
        }
        const_iterator& operator++() {
            ++q;
            return *this;
        }
        const_iterator& operator--() {
            --q;
            return *this;
        }
        bool operator==(const const_iterator& o) const {
            return q == o.q;
        }
        bool operator!=(const const_iterator& o) const {
            return q != o.q;
        }
    };
    iterator begin() {
        return {v.begin()};
    }
    iterator end() {
        return {v.end()};
    }
    const_iterator begin() const {
        return {v.begin()};
    }
    const_iterator end() const {
        return {v.end()};
    }
    const_iterator cbegin() const {
        return begin();
    }
    const_iterator cend() const {
        return end();
    }
    size_t size() const {
        return v.size();
    }
    bool empty() const {
        return v.empty();
    }
    void clear() {
        v.clear();
    }
    T& front() {
        return v.front();
    }
    T& back() {
        return v.back();
    }
    const T& back() const {
        return v.back();
    }
    void push_back(const T& x) {
        v.push_back(x);
    }
    void push_back(T&& x) {
        v.push_back(std::move(x));
    }
    template <class... A>
    T& emplace_back(A&&... a) {
        return v.emplace_back(std::forward<A>(a)...);
    }
    iterator insert(iterator pos, const T& x) {
        if (pos != end())
            vp_overflow();
        v.push_back(x);
        return {v.end() - 1};
    }
    void pop_back() {
        v.pop_back();
    }
};

template <class T>
void swap(vp_vector<T>& a, vp_vector<T>& b) noexcept {
    a.swap(b);
}

#ifdef VP_STRINGS
// Short strings packed into three words (longer ones, which only occur in messages, are cut).
struct vp_string {
    uint64_t vp_w[3];
    size_t vp_n;
    vp_string() : vp_w{0, 0, 0}, vp_n(0) {
    }
    vp_string(const char* s) : vp_w{0, 0, 0}, vp_n(0) {
        for (size_t i = 0; i < 24 && s[i] != 0; i++)
            add_(s[i]);
    }
    vp_string(const std::string& s) : vp_string(s.c_str()) {
    }
    void add_(char c) {
        if (vp_n < 24)
            vp_w[vp_n / 8] |= (uint64_t)(unsigned char)c << (56 - 8 * (vp_n % 8));
        vp_n++;
    }
    char operator[](size_t i) const {
        return i < 24 ? (char)(vp_w[i / 8] >> (56 - 8 * (i % 8))) : 0;
    }
    vp_string& operator+=(const vp_string& o) {
        for (size_t i = 0; i < 24 && i < o.vp_n; i++)
            add_(o[i]);
        return *this;
    }
    size_t size() const {
        return vp_n;
    }
    size_t length() const {
        return vp_n;
    }
    bool empty() const {
        return vp_n == 0;
    }
    const char* c_str() const;
    const char* data() const;
    int compare(const vp_string& o) const {
        for (size_t i = 0; i < 3; i++)
            if (vp_w[i] != o.vp_w[i])
                return vp_w[i] < o.vp_w[i] ? -1 : 1;
        return 0;
    }
    operator std::string() const;
};
inline bool operator==(const vp_string& a, const vp_string& b) {
    return a.compare(b) == 0;
}
inline bool operator!=(const vp_string& a, const vp_string& b) {
    return a.compare(b) != 0;
}
inline bool operator<(const vp_string& a, const vp_string& b) {
    return a.compare(b) < 0;
}
inline vp_string operator+(const vp_string& a, const vp_string& b) {
    vp_string r(a);
    r += b;
    return r;
}
template <class T>
vp_string vp_to_string(const T&) {
    return vp_string("?");
}
// A stream that only ever makes up a message.
struct vp_stringstream {
    template <class T>
    vp_stringstream& operator<<(const T&) {
        return *this;
    }
    vp_stringstream& operator<<(std::ostream& (*)(std::ostream&)) {
        return *this;
    }
    vp_string str() const {
        return vp_string("?");
    }
};
#endif
}  // namespace std

#ifdef VP_STRINGS
#define string vp_string
#define to_string vp_to_string
#define unordered_map vp_map
#define stringstream vp_stringstream
#define ostringstream vp_stringstream
#endif
#define vector vp_vector
#define array vp_array
#define set vp_set
#define map vp_map
#define list vp_list
#define throw ::vp_thrown(),
