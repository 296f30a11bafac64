// stand-in for the header: a parallel loop is two tasks, each a part of the range; vf_tasks decides how they interleave
#pragma once
#include <type_traits>
#include <oneapi/tbb/detail/_range_common.h>
#include <oneapi/tbb/blocked_range.h>
#include <oneapi/tbb/partitioner.h>
extern "C" void vf_tasks(void (*f)(const void *, void *), const void *body, void *a, void *b);
namespace tbb {
using detail::d1::blocked_range;
namespace vf {
template <class R, class B> void part(const void *b, void *r) { (*(const B *)b)(*(R *)r); }
template <class I> struct ints { I first, last; };
template <class I, class B> void each(const void *b, void *r) { ints<I> *p = (ints<I> *)r; for (I i = p->first; i < p->last; ++i) (*(const B *)b)(i); }
}
template <class R, class B> void parallel_for(const R &range, const B &body) {
    R l(range);
    if (l.is_divisible()) {
        R r(l, split());
        vf_tasks(&vf::part<R, B>, &body, &l, &r);
    } else if (!l.empty())
        body(l);
}
template <class R, class B, class P, typename std::enable_if<!std::is_integral<R>::value, int>::type = 0> void parallel_for(const R &range, const B &body, P &&) { parallel_for(range, body); }
template <class I, class F, typename std::enable_if<std::is_integral<I>::value, int>::type = 0> void parallel_for(I first, I last, const F &f) {
    I m = first + (last - first) / 2;
    vf::ints<I> a{first, m}, b{m, last};
    if (m > first) vf_tasks(&vf::each<I, F>, &f, &a, &b);
    else if (last > first) f(first);
}
}
