// stand-in for the header: items are given to the body one after another, those it feeds after the rest; two tasks take turns
#pragma once
#include <cstddef>
#include <type_traits>
#include <vector>
extern "C" void vf_turn(std::size_t k);
namespace tbb {
template <class T> struct parallel_do_feeder { std::vector<T> more; void add(const T &x) { more.push_back(x); } };
template <class I, class B> void parallel_do(I first, I last, const B &body) {
    typedef typename std::decay<decltype(*first)>::type T;
    parallel_do_feeder<T> f;
    std::size_t k = 0;
    for (; first != last; ++first) { vf_turn(k++); T x = *first; body(x, f); }
    for (std::size_t i = 0; i < f.more.size(); ++i) { vf_turn(k++); T x = f.more[i]; body(x, f); }
    vf_turn(std::size_t(-1));
}
template <class R, class B> void parallel_do(R &&r, const B &body) { parallel_do(r.begin(), r.end(), body); }
}
