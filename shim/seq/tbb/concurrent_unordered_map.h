// stand-in for the header: the standard containers, whose operations the analysis takes as indivisible
#pragma once
#include <unordered_map>
#include <functional>
namespace tbb {
template <class K, class V, class H = std::hash<K>, class E = std::equal_to<K>> struct concurrent_unordered_multimap : std::unordered_multimap<K, V, H, E> {
    typedef std::unordered_multimap<K, V, H, E> base;
    concurrent_unordered_multimap() { }
    explicit concurrent_unordered_multimap(std::size_t n) : base(n) { }
    template <class X> __attribute__((noinline)) typename base::iterator insert(X &&x) { return base::insert(std::forward<X>(x)); }
    template <class... X> __attribute__((noinline)) typename base::iterator emplace(X &&... x) { return base::emplace(std::forward<X>(x)...); }
};
template <class K, class V, class H = std::hash<K>, class E = std::equal_to<K>> struct concurrent_unordered_map : std::unordered_map<K, V, H, E> {
    typedef std::unordered_map<K, V, H, E> base;
    concurrent_unordered_map() { }
    explicit concurrent_unordered_map(std::size_t n) : base(n) { }
};
}
