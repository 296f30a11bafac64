// stand-in for the header: a vector whose operations are indivisible
#pragma once
#include <cstddef>
#include <utility>
#include <vector>
#include <oneapi/tbb/detail/_range_common.h>
#include <oneapi/tbb/blocked_range.h>
namespace tbb {
template <class T> class concurrent_vector {
    std::vector<T> v;
public:
    typedef T value_type; typedef std::size_t size_type; typedef T &reference; typedef const T &const_reference;
    typedef T *iterator; typedef const T *const_iterator;
    template <class I> struct part {
        typedef I const_iterator; typedef I iterator;
        I a, b;
        I begin() const { return a; }
        I end() const { return b; }
        bool empty() const { return a == b; }
        bool is_divisible() const { return b - a > 1; }
        part(I x, I y) : a(x), b(y) { }
        part(part &o, detail::split) : a(o.a + (o.b - o.a) / 2), b(o.b) { o.b = a; }
    };
    typedef part<iterator> range_type; typedef part<const_iterator> const_range_type;
    iterator push_back(const T &x) { v.push_back(x); return end() - 1; }
    iterator push_back(T &&x) { v.push_back(std::move(x)); return end() - 1; }
    template <class... A> iterator emplace_back(A &&...a) { v.emplace_back(std::forward<A>(a)...); return end() - 1; }
    void reserve(size_type n) { v.reserve(n); }
    void clear() { v.clear(); }
    size_type size() const { return v.size(); }
    bool empty() const { return v.empty(); }
    T &operator[](size_type i) { return v[i]; }
    const T &operator[](size_type i) const { return v[i]; }
    T &at(size_type i) { return v.at(i); }
    const T &at(size_type i) const { return v.at(i); }
    T &front() { return v.front(); }
    T &back() { return v.back(); }
    iterator begin() { return v.data(); }
    iterator end() { return v.empty() ? v.data() : v.data() + v.size(); }
    const_iterator begin() const { return v.data(); }
    const_iterator end() const { return v.empty() ? v.data() : v.data() + v.size(); }
    const_iterator cbegin() const { return begin(); }
    const_iterator cend() const { return end(); }
    range_type range(size_type = 1) { return range_type(begin(), end()); }
    const_range_type range(size_type = 1) const { return const_range_type(begin(), end()); }
};
}
