// stand-in for the header: sorted by insertion, one task
#pragma once
#include <utility>
namespace tbb {
template <class I, class C> void parallel_sort(I first, I last, const C &less) {
    for (I i = first; i != last; ++i) for (I j = i; j != first && less(*j, *(j - 1)); --j) std::swap(*j, *(j - 1));
}
template <class I> void parallel_sort(I first, I last) { parallel_sort(first, last, [](auto &a, auto &b) { return a < b; }); }
}
