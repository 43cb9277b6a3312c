// Force-included (-include) before every translation unit of an instrumented build.
// Pulls in every standard / third-party header the code uses with the real primitives, then
// renames std::atomic, std::mutex, std::condition_variable ... to cooperative versions.
#pragma once
#include <algorithm>
#include <any>
#include <array>
#include <atomic>
#include <bitset>
#include <cassert>
#include <chrono>
#include <cmath>
#include <condition_variable>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <deque>
#include <exception>
#include <filesystem>
#include <fstream>
#include <functional>
#include <future>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <new>
#include <numeric>
#include <optional>
#include <queue>
#include <random>
#include <regex>
#include <set>
#include <shared_mutex>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <thread>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>
#include <emmintrin.h>
#include <glog/logging.h>
#include <boost/container/pmr/memory_resource.hpp>
#if __has_include(<boost/container/pmr/synchronized_pool_resource.hpp>)
#include <boost/container/pmr/synchronized_pool_resource.hpp>
#endif
#include <boost/thread.hpp>
#include <boost/thread/latch.hpp>
#include <tbb/concurrent_queue.h>
#include <tbb/concurrent_hash_map.h>
#include <tbb/concurrent_priority_queue.h>
#include <tbb/concurrent_vector.h>
#include <tbb/concurrent_unordered_map.h>
#ifdef COOP_PROTO
#include <google/protobuf/message.h>
#include <google/protobuf/descriptor.pb.h>
#endif
#ifdef COOP_GRPC
#include <grpcpp/grpcpp.h>
#endif
#include "coop.h"

#define VS_NS __attribute__((no_sanitize("thread")))
namespace std {
template <class T>
class vs_atomic {
    static_assert(std::is_trivially_copyable_v<T>);
public:
    using value_type = T;
    static constexpr bool is_always_lock_free = true;
    constexpr vs_atomic() noexcept : v_{} {}
    constexpr vs_atomic(T v) noexcept : v_(v) {} //NOLINT
    vs_atomic(vs_atomic const&) = delete;
    vs_atomic& operator=(vs_atomic const&) = delete;
    [[nodiscard]] bool is_lock_free() const noexcept { return true; }
    VS_NS T operator=(T v) noexcept { store(v); return v; } //NOLINT
    VS_NS void store(T v, std::memory_order = std::memory_order_seq_cst) noexcept { coop::point(); v_ = v; }
    [[nodiscard]] VS_NS T load(std::memory_order = std::memory_order_seq_cst) const noexcept { coop::point(); return v_; }
    VS_NS operator T() const noexcept { return load(); } //NOLINT
    VS_NS T exchange(T v, std::memory_order = std::memory_order_seq_cst) noexcept { coop::point(); T o = v_; v_ = v; return o; }
    VS_NS bool compare_exchange_strong(T& e, T d, std::memory_order = std::memory_order_seq_cst, std::memory_order = std::memory_order_seq_cst) noexcept {
        coop::point();
        if (std::memcmp(&v_, &e, sizeof(T)) == 0) { v_ = d; return true; }
        e = v_; return false;
    }
    VS_NS bool compare_exchange_weak(T& e, T d, std::memory_order = std::memory_order_seq_cst, std::memory_order = std::memory_order_seq_cst) noexcept {
        coop::point();
        if (coop::spurious()) { e = v_; return false; }
        if (std::memcmp(&v_, &e, sizeof(T)) == 0) { v_ = d; return true; }
        e = v_; return false;
    }
    template <class U> VS_NS T fetch_add(U d, std::memory_order = std::memory_order_seq_cst) noexcept { coop::point(); T o = v_; v_ = static_cast<T>(v_ + d); return o; }
    template <class U> VS_NS T fetch_sub(U d, std::memory_order = std::memory_order_seq_cst) noexcept { coop::point(); T o = v_; v_ = static_cast<T>(v_ - d); return o; }
    template <class U> VS_NS T fetch_or(U d, std::memory_order = std::memory_order_seq_cst) noexcept { coop::point(); T o = v_; v_ = static_cast<T>(v_ | d); return o; }
    template <class U> VS_NS T fetch_and(U d, std::memory_order = std::memory_order_seq_cst) noexcept { coop::point(); T o = v_; v_ = static_cast<T>(v_ & d); return o; }
    template <class U> VS_NS T fetch_xor(U d, std::memory_order = std::memory_order_seq_cst) noexcept { coop::point(); T o = v_; v_ = static_cast<T>(v_ ^ d); return o; }
    VS_NS T operator++() noexcept { return static_cast<T>(fetch_add(1) + 1); }
    VS_NS T operator++(int) noexcept { return fetch_add(1); }
    VS_NS T operator--() noexcept { return static_cast<T>(fetch_sub(1) - 1); }
    VS_NS T operator--(int) noexcept { return fetch_sub(1); }
    template <class U> VS_NS T operator+=(U d) noexcept { return static_cast<T>(fetch_add(d) + d); }
    template <class U> VS_NS T operator-=(U d) noexcept { return static_cast<T>(fetch_sub(d) - d); }
    template <class U> VS_NS T operator|=(U d) noexcept { return static_cast<T>(fetch_or(d) | d); }
    template <class U> VS_NS T operator&=(U d) noexcept { return static_cast<T>(fetch_and(d) & d); }
private:
    T v_;
};
using vs_atomic_bool = vs_atomic<bool>;
using vs_atomic_int = vs_atomic<int>;
using vs_atomic_size_t = vs_atomic<std::size_t>;
using vs_atomic_uint64_t = vs_atomic<std::uint64_t>;
class vs_atomic_flag {
public:
    constexpr vs_atomic_flag() noexcept = default;
    vs_atomic_flag(vs_atomic_flag const&) = delete;
    vs_atomic_flag& operator=(vs_atomic_flag const&) = delete;
    VS_NS bool test_and_set(std::memory_order = std::memory_order_seq_cst) noexcept { coop::point(); bool o = v_; v_ = true; return o; }
    VS_NS void clear(std::memory_order = std::memory_order_seq_cst) noexcept { coop::point(); v_ = false; }
    VS_NS bool test(std::memory_order = std::memory_order_seq_cst) const noexcept { coop::point(); return v_; }
private:
    bool v_{false};
};

template <class T> VS_NS auto vs_atomic_load(std::shared_ptr<T> const* p) { coop::point(); coop::quiet vs_q; return *p; }
template <class T> VS_NS auto vs_atomic_load_explicit(std::shared_ptr<T> const* p, std::memory_order) { coop::point(); coop::quiet vs_q; return *p; }
template <class T> VS_NS void vs_atomic_store(std::shared_ptr<T>* p, std::shared_ptr<T> v) { coop::point(); coop::quiet vs_q; *p = std::move(v); }
template <class T> VS_NS void vs_atomic_store_explicit(std::shared_ptr<T>* p, std::shared_ptr<T> v, std::memory_order) { coop::point(); coop::quiet vs_q; *p = std::move(v); }
template <class T> VS_NS std::shared_ptr<T> vs_atomic_exchange(std::shared_ptr<T>* p, std::shared_ptr<T> v) { coop::point(); coop::quiet vs_q; p->swap(v); return v; }
template <class T> VS_NS bool vs_atomic_compare_exchange_strong(std::shared_ptr<T>* p, std::shared_ptr<T>* e, std::shared_ptr<T> d) {
    coop::point(); coop::quiet vs_q;
    if (*p == *e) { *p = std::move(d); return true; }
    *e = *p; return false;
}
template <class T> VS_NS bool vs_atomic_compare_exchange_weak(std::shared_ptr<T>* p, std::shared_ptr<T>* e, std::shared_ptr<T> d) {
    if (coop::spurious()) { *e = *p; return false; }
    return vs_atomic_compare_exchange_strong(p, e, std::move(d));
}

class vs_mutex {
public:
    constexpr vs_mutex() noexcept = default;
    vs_mutex(vs_mutex const&) = delete;
    vs_mutex& operator=(vs_mutex const&) = delete;
    VS_NS void lock() { coop::point(); lock_np(); }
    VS_NS void lock_np() { while (locked_) coop::block(this, false); locked_ = true; }
    VS_NS bool try_lock() { coop::point(); if (locked_) return false; locked_ = true; return true; }
    VS_NS void unlock() { locked_ = false; coop::wake_all(this); }
private:
    bool locked_{false};
};
class vs_recursive_mutex {
public:
    VS_NS void lock() { coop::point(); if (n_ > 0 && owner_ == coop::self()) { ++n_; return; } while (n_ > 0) coop::block(this, false); n_ = 1; owner_ = coop::self(); }
    VS_NS bool try_lock() { coop::point(); if (n_ > 0 && owner_ != coop::self()) return false; ++n_; owner_ = coop::self(); return true; }
    VS_NS void unlock() { if (--n_ == 0) coop::wake_all(this); }
private:
    int n_{0}; int owner_{-1};
};
class vs_shared_mutex {
public:
    VS_NS void lock() { coop::point(); while (x_ || s_ > 0) coop::block(this, false); x_ = true; }
    VS_NS bool try_lock() { coop::point(); if (x_ || s_ > 0) return false; x_ = true; return true; }
    VS_NS void unlock() { x_ = false; coop::wake_all(this); }
    VS_NS void lock_shared() { coop::point(); while (x_) coop::block(this, false); ++s_; }
    VS_NS bool try_lock_shared() { coop::point(); if (x_) return false; ++s_; return true; }
    VS_NS void unlock_shared() { --s_; coop::wake_all(this); }
private:
    bool x_{false}; int s_{0};
};
class vs_condition_variable {
public:
    vs_condition_variable() = default;
    vs_condition_variable(vs_condition_variable const&) = delete;
    vs_condition_variable& operator=(vs_condition_variable const&) = delete;
    template <class L> VS_NS void wait(L& lk) {
        coop::point();
        lk.mutex()->unlock();
        if (coop::spurious()) coop::point(); else coop::block(this, false);
        lk.mutex()->lock_np();
    }
    template <class L, class P> void wait(L& lk, P p) { while (! p()) wait(lk); }
    template <class L, class R, class Pe> std::cv_status wait_for(L& lk, std::chrono::duration<R, Pe> const&) { return timed(lk); }
    template <class L, class R, class Pe, class P> VS_NS bool wait_for(L& lk, std::chrono::duration<R, Pe> const&, P p) {
        while (! p()) { if (timed(lk) == std::cv_status::timeout) return p(); }
        return true;
    }
    template <class L, class C, class D> std::cv_status wait_until(L& lk, std::chrono::time_point<C, D> const&) { return timed(lk); }
    template <class L, class C, class D, class P> VS_NS bool wait_until(L& lk, std::chrono::time_point<C, D> const&, P p) {
        while (! p()) { if (timed(lk) == std::cv_status::timeout) return p(); }
        return true;
    }
    VS_NS void notify_one() noexcept { coop::point(); coop::wake_one(this); }
    VS_NS void notify_all() noexcept { coop::point(); coop::wake_all(this); }
private:
    template <class L> VS_NS std::cv_status timed(L& lk) {
        coop::point();
        lk.mutex()->unlock();
        bool woken = true;
        if (coop::spurious()) coop::point(); else woken = coop::block(this, true);
        lk.mutex()->lock_np();
        return woken ? std::cv_status::no_timeout : std::cv_status::timeout;
    }
};
using vs_condition_variable_any = vs_condition_variable;
namespace this_thread {
VS_NS inline void vs_yield() noexcept { coop::point(coop::pk::yield); }
template <class R, class Pe> VS_NS void vs_sleep_for(std::chrono::duration<R, Pe> const&) { coop::point(coop::pk::yield); }
} // namespace this_thread
} // namespace std

namespace tbb {
template <class T>
class vs_concurrent_queue : private tbb::concurrent_queue<T> {
    using base = tbb::concurrent_queue<T>;
public:
    vs_concurrent_queue() = default;
    template <class... A> explicit vs_concurrent_queue(A&&... a) : base(std::forward<A>(a)...) {}
    using typename base::value_type;
    VS_NS void push(T const& v) { coop::point(); coop::quiet vs_q; base::push(v); }
    VS_NS void push(T&& v) { coop::point(); coop::quiet vs_q; base::push(std::move(v)); }
    template <class... A> VS_NS void emplace(A&&... a) { coop::point(); coop::quiet vs_q; base::emplace(std::forward<A>(a)...); }
    VS_NS bool try_pop(T& v) { coop::point(); coop::quiet vs_q; return base::try_pop(v); }
    [[nodiscard]] VS_NS bool empty() const { coop::point(); coop::quiet vs_q; return base::empty(); }
    using base::unsafe_size; using base::clear; using base::unsafe_begin; using base::unsafe_end;
};
template <class T>
class vs_concurrent_bounded_queue : private tbb::concurrent_bounded_queue<T> { // used without a capacity
    using base = tbb::concurrent_bounded_queue<T>;
public:
    vs_concurrent_bounded_queue() = default;
    using typename base::value_type;
    VS_NS void push(T const& v) { coop::point(); coop::quiet vs_q; base::push(v); coop::wake_all(this); }
    VS_NS void push(T&& v) { coop::point(); coop::quiet vs_q; base::push(std::move(v)); coop::wake_all(this); }
    template <class... A> VS_NS void emplace(A&&... a) { coop::point(); coop::quiet vs_q; base::emplace(std::forward<A>(a)...); coop::wake_all(this); }
    VS_NS bool try_pop(T& v) { coop::point(); coop::quiet vs_q; return base::try_pop(v); }
    VS_NS bool try_push(T const& v) { push(v); return true; }
    VS_NS void pop(T& v) { coop::point(); for (;;) { { coop::quiet vs_q; if (base::try_pop(v)) return; } coop::block(this, false); } }
    [[nodiscard]] VS_NS bool empty() const { coop::point(); coop::quiet vs_q; return base::empty(); }
    [[nodiscard]] VS_NS typename base::size_type size() const { coop::point(); coop::quiet vs_q; return base::size(); }
};
template <class T, class C = std::less<T>>
class vs_concurrent_priority_queue : private tbb::concurrent_priority_queue<T, C> {
    using base = tbb::concurrent_priority_queue<T, C>;
public:
    vs_concurrent_priority_queue() = default;
    template <class... A> explicit vs_concurrent_priority_queue(A&&... a) : base(std::forward<A>(a)...) {}
    using typename base::value_type;
    VS_NS void push(T const& v) { coop::point(); coop::quiet vs_q; base::push(v); }
    VS_NS void push(T&& v) { coop::point(); coop::quiet vs_q; base::push(std::move(v)); }
    template <class... A> VS_NS void emplace(A&&... a) { coop::point(); coop::quiet vs_q; base::emplace(std::forward<A>(a)...); }
    VS_NS bool try_pop(T& v) { coop::point(); coop::quiet vs_q; return base::try_pop(v); }
    [[nodiscard]] VS_NS bool empty() const { coop::point(); coop::quiet vs_q; return base::empty(); }
    [[nodiscard]] VS_NS std::size_t size() const { coop::point(); coop::quiet vs_q; return base::size(); }
    VS_NS void clear() { coop::point(); coop::quiet vs_q; base::clear(); }
};
// same meaning as the library's map: elements are removed from the table first, then their holders are waited for
template <class K, class V, class H = void, class A = void>
class vs_concurrent_hash_map {
public:
    using key_type = K; using mapped_type = V; using value_type = std::pair<K const, V>; using size_type = std::size_t;
private:
    struct node {
        template <class... X> explicit node(K const& k, X&&... x) : value(std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple(std::forward<X>(x)...)) {}
        value_type value; int readers{0}; bool writer{false}; bool gone{false};
    };
    using map_type = std::map<K, std::shared_ptr<node>>;
    template <class T> struct iter {
        using iterator_category = std::forward_iterator_tag; using value_type = T; using difference_type = std::ptrdiff_t; using pointer = T*; using reference = T&;
        typename map_type::const_iterator i{};
        T& operator*() const { return i->second->value; }
        T* operator->() const { return &i->second->value; }
        iter& operator++() { ++i; return *this; }
        iter operator++(int) { auto r = *this; ++i; return r; }
        bool operator==(iter const& o) const { return i == o.i; }
        bool operator!=(iter const& o) const { return i != o.i; }
    };
public:
    using iterator = iter<value_type>; using const_iterator = iter<value_type const>;
    class const_accessor {
        friend class vs_concurrent_hash_map;
    public:
        using value_type = typename vs_concurrent_hash_map::value_type const;
        const_accessor() = default;
        const_accessor(const_accessor const&) = delete;
        const_accessor& operator=(const_accessor const&) = delete;
        ~const_accessor() { release(); }
        [[nodiscard]] bool empty() const { return ! n_; }
        value_type& operator*() const { return n_->value; }
        value_type* operator->() const { return &n_->value; }
        VS_NS void release() {
            if (! n_) return;
            coop::quiet vs_q;
            if (w_) n_->writer = false; else --n_->readers;
            coop::wake_all(n_.get());
            n_.reset();
        }
    protected:
        std::shared_ptr<node> n_{}; bool w_{false};
    };
    class accessor : public const_accessor {
    public:
        using value_type = typename vs_concurrent_hash_map::value_type;
        value_type& operator*() const { return this->n_->value; }
        value_type* operator->() const { return &this->n_->value; }
    };
    vs_concurrent_hash_map() = default;
    VS_NS bool find(const_accessor& r, K const& k) const { r.release(); return get(r, k, false); }
    VS_NS bool find(accessor& r, K const& k) { r.release(); return get(r, k, true); }
    VS_NS size_type count(K const& k) const { coop::point(); coop::quiet vs_q; return m_.count(k); }
    VS_NS bool insert(const_accessor& r, K const& k) { return put(r, k, false); }
    VS_NS bool insert(accessor& r, K const& k) { return put(r, k, true); }
    VS_NS bool insert(const_accessor& r, value_type const& v) { return put(r, v.first, false, v.second); }
    VS_NS bool insert(accessor& r, value_type const& v) { return put(r, v.first, true, v.second); }
    VS_NS bool insert(value_type const& v) { coop::point(); coop::quiet vs_q; return m_.emplace(v.first, std::make_shared<node>(v.first, v.second)).second; }
    template <class KK, class... X> VS_NS bool emplace(KK&& k, X&&... x) {
        if constexpr (std::is_base_of_v<const_accessor, std::decay_t<KK>>) { return put_first(k, std::forward<X>(x)...); }
        else { coop::point(); coop::quiet vs_q; K key(std::forward<KK>(k)); if (m_.count(key)) return false; auto n = std::make_shared<node>(key, std::forward<X>(x)...); m_.emplace(std::move(key), std::move(n)); return true; }
    }
    VS_NS bool erase(K const& k) {
        coop::point();
        std::shared_ptr<node> n;
        { coop::quiet vs_q; auto it = m_.find(k); if (it == m_.end()) return false; n = it->second; n->gone = true; m_.erase(it); }
        while (n->writer || n->readers > 0) coop::block(n.get(), false);
        coop::quiet vs_q; n.reset();
        return true;
    }
    VS_NS bool erase(const_accessor& r) {
        coop::point();
        auto n = r.n_;
        if (n->gone) { r.release(); return false; }
        { coop::quiet vs_q; n->gone = true; m_.erase(n->value.first); }
        if (! r.w_) while (n->readers > 1) coop::block(n.get(), false);
        r.release();
        return true;
    }
    VS_NS bool erase(accessor& r) { return erase(static_cast<const_accessor&>(r)); }
    [[nodiscard]] VS_NS size_type size() const { coop::point(); coop::quiet vs_q; return m_.size(); }
    [[nodiscard]] VS_NS bool empty() const { coop::point(); coop::quiet vs_q; return m_.empty(); }
    VS_NS void clear() { coop::point(); coop::quiet vs_q; m_.clear(); }
    iterator begin() { return {m_.begin()}; }
    iterator end() { return {m_.end()}; }
    const_iterator begin() const { return {m_.begin()}; }
    const_iterator end() const { return {m_.end()}; }
private:
    map_type m_{};
    VS_NS static bool hold(const_accessor& r, std::shared_ptr<node> const& n, bool w) {
        while (w ? (n->writer || n->readers > 0) : n->writer) { coop::block(n.get(), false); if (n->gone) return false; }
        if (w) n->writer = true; else ++n->readers;
        r.n_ = n; r.w_ = w;
        return true;
    }
    VS_NS bool get(const_accessor& r, K const& k, bool w) const {
        coop::point();
        for (;;) {
            std::shared_ptr<node> n;
            { coop::quiet vs_q; auto it = m_.find(k); if (it == m_.end()) return false; n = it->second; }
            coop::quiet vs_q;
            if (hold(r, n, w)) return true;
        }
    }
    template <class... X> VS_NS bool put(const_accessor& r, K const& k, bool w, X&&... x) {
        r.release();
        coop::point();
        for (;;) {
            coop::quiet vs_q;
            std::shared_ptr<node> n; bool fresh = false;
            { auto it = m_.find(k); if (it == m_.end()) { fresh = true; n = std::make_shared<node>(k, std::forward<X>(x)...); m_.emplace(k, n); } else n = it->second; }
            if (hold(r, n, w)) return fresh;
        }
    }
    template <class R, class KK, class... X> VS_NS bool put_first(R& r, KK&& k, X&&... x) { return put(r, K(std::forward<KK>(k)), std::is_same_v<R, accessor>, std::forward<X>(x)...); }
};
} // namespace tbb

#define atomic vs_atomic
#define atomic_bool vs_atomic_bool
#define atomic_int vs_atomic_int
#define atomic_size_t vs_atomic_size_t
#define atomic_uint64_t vs_atomic_uint64_t
#define atomic_flag vs_atomic_flag
#define atomic_load vs_atomic_load
#define atomic_load_explicit vs_atomic_load_explicit
#define atomic_store vs_atomic_store
#define atomic_store_explicit vs_atomic_store_explicit
#define atomic_exchange vs_atomic_exchange
#define atomic_compare_exchange_strong vs_atomic_compare_exchange_strong
#define atomic_compare_exchange_weak vs_atomic_compare_exchange_weak
#define mutex vs_mutex
#define recursive_mutex vs_recursive_mutex
#define shared_mutex vs_shared_mutex
#define condition_variable vs_condition_variable
#define condition_variable_any vs_condition_variable_any
#define concurrent_queue vs_concurrent_queue
#define concurrent_bounded_queue vs_concurrent_bounded_queue
#define concurrent_priority_queue vs_concurrent_priority_queue
#define concurrent_hash_map vs_concurrent_hash_map
#define sleep_for vs_sleep_for
#define _mm_pause() coop::point(coop::pk::spin)
