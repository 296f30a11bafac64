// stand-in for the header: one object per task of a parallel loop; vf_task says which task is running
#pragma once
#include <cstddef>
#include <atomic>
#include <utility>
#include <type_traits>
#include <oneapi/tbb/cache_aligned_allocator.h>
extern "C" unsigned vf_task();
namespace vf {
template <class T> struct maker { virtual T *make() = 0; virtual ~maker() { } };
template <class T> struct plain : maker<T> { T *make() override { return new T(); } };
template <class T, class F> struct made : maker<T> {
    F f;
    template <class G> made(G &&g) : f(std::forward<G>(g)) { }
    T *make() override { if constexpr (std::is_invocable_v<F &>) return new T(f()); else return new T(f); }
};
template <class T> class per_task {
    T *own[3] = {nullptr, nullptr, nullptr}, *all[3];
    std::atomic<std::size_t> n{0};
    maker<T> *how;
    per_task(const per_task &) = delete;
public:
    typedef T value_type; typedef T &reference; typedef T **slots;
    struct iterator {
        T **p;
        T &operator*() const { return **p; }
        T *operator->() const { return *p; }
        iterator &operator++() { ++p; return *this; }
        bool operator==(const iterator &o) const { return p == o.p; }
        bool operator!=(const iterator &o) const { return p != o.p; }
    };
    per_task() : how(new plain<T>()) { }
    template <class F, typename std::enable_if<!std::is_same<typename std::decay<F>::type, per_task>::value, int>::type = 0>
    per_task(F &&f) : how(new made<T, typename std::decay<F>::type>(std::forward<F>(f))) { }
    ~per_task() { for (std::size_t i = 0; i < n; ++i) delete all[i]; delete how; }
    T &local() {
        T *&l = own[vf_task()];
        if (!l) { l = how->make(); all[n++] = l; }
        return *l;
    }
    T &local(bool &there) { there = own[vf_task()]; return local(); }
    std::size_t size() const { return n; }
    bool empty() const { return !n; }
    iterator begin() { return iterator{all}; }
    iterator end() { return iterator{all + n}; }
    template <class F> T combine(F f) {
        if (!n) return local();
        T r(*all[0]);
        for (std::size_t i = 1; i < n; ++i) r = f(r, *all[i]);
        return r;
    }
    template <class F> void combine_each(F f) { for (std::size_t i = 0; i < n; ++i) f(*all[i]); }
};
}
namespace tbb {
enum ets_key_usage_type : char { ets_key_per_instance, ets_no_key, ets_suspend_aware };
template <class T, class A = cache_aligned_allocator<T>, ets_key_usage_type K = ets_no_key> using enumerable_thread_specific = vf::per_task<T>;
}
