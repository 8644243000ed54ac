// std::atomic<bool>, std::atomic<unsigned long> ... of the code under contract: every access goes through the contract unit's hooks (IR build only,
// included before anything that includes <atomic>). Memory orders are kept by the hooks' obligations only where they say so (all uses are seq_cst).
#pragma once
#include <bits/atomic_base.h>
#include <cstdint>
uint64_t gv_on_load(const volatile void* a, uint64_t raw, bool boolean); // raw: what the memory holds for this thread's own view
void gv_on_store(volatile void* a, uint64_t v);
namespace gv { using ulong_t = unsigned long; }
#define GV_ATOMIC(T) \
template <> struct std::__atomic_base<T> \
{ \
    using value_type = T; using difference_type = T; T _M_i = T(); \
    __atomic_base() noexcept = default; ~__atomic_base() noexcept = default; __atomic_base(const __atomic_base&) = delete; __atomic_base& operator=(const __atomic_base&) = delete; \
    constexpr __atomic_base(T i) noexcept : _M_i(i) {} \
    operator T() const noexcept { return load(); } operator T() const volatile noexcept { return load(); } \
    T operator=(T i) noexcept { store(i); return i; } T operator=(T i) volatile noexcept { store(i); return i; } \
    bool is_lock_free() const noexcept { return true; } bool is_lock_free() const volatile noexcept { return true; } \
    void store(T v, std::memory_order = std::memory_order_seq_cst) noexcept { _M_i = v; gv_on_store(&_M_i, v); } void store(T v, std::memory_order = std::memory_order_seq_cst) volatile noexcept { _M_i = v; gv_on_store(&_M_i, v); } \
    T load(std::memory_order = std::memory_order_seq_cst) const noexcept { return T(gv_on_load(&_M_i, _M_i, sizeof(T) == 1)); } T load(std::memory_order = std::memory_order_seq_cst) const volatile noexcept { return T(gv_on_load(&_M_i, _M_i, sizeof(T) == 1)); } \
    T exchange(T v, std::memory_order = std::memory_order_seq_cst) noexcept { const T o = load(); store(v); return o; } T exchange(T v, std::memory_order = std::memory_order_seq_cst) volatile noexcept { const T o = load(); store(v); return o; } \
    bool compare_exchange_strong(T& e, T v, std::memory_order, std::memory_order) noexcept { const T o = load(); if (o == e) { store(v); return true; } e = o; return false; } \
    bool compare_exchange_strong(T& e, T v, std::memory_order = std::memory_order_seq_cst) noexcept { return compare_exchange_strong(e, v, std::memory_order_seq_cst, std::memory_order_seq_cst); } \
    bool compare_exchange_weak(T& e, T v, std::memory_order, std::memory_order) noexcept { return compare_exchange_strong(e, v); } \
    bool compare_exchange_weak(T& e, T v, std::memory_order = std::memory_order_seq_cst) noexcept { return compare_exchange_strong(e, v); } \
    bool compare_exchange_strong(T& e, T v, std::memory_order, std::memory_order) volatile noexcept { const T o = load(); if (o == e) { store(v); return true; } e = o; return false; } \
    bool compare_exchange_strong(T& e, T v, std::memory_order = std::memory_order_seq_cst) volatile noexcept { return compare_exchange_strong(e, v, std::memory_order_seq_cst, std::memory_order_seq_cst); } \
    bool compare_exchange_weak(T& e, T v, std::memory_order, std::memory_order) volatile noexcept { return compare_exchange_strong(e, v); } \
    bool compare_exchange_weak(T& e, T v, std::memory_order = std::memory_order_seq_cst) volatile noexcept { return compare_exchange_strong(e, v); } \
    T fetch_add(T v, std::memory_order = std::memory_order_seq_cst) noexcept { const T o = load(); store(T(o + v)); return o; } \
    T fetch_sub(T v, std::memory_order = std::memory_order_seq_cst) noexcept { const T o = load(); store(T(o - v)); return o; } \
    T operator++() noexcept { return T(fetch_add(1) + 1); } T operator++(int) noexcept { return fetch_add(1); } T operator--() noexcept { return T(fetch_sub(1) - 1); } T operator--(int) noexcept { return fetch_sub(1); } \
    T operator+=(T v) noexcept { return T(fetch_add(v) + v); } T operator-=(T v) noexcept { return T(fetch_sub(v) - v); } \
    void wait(T, std::memory_order = std::memory_order_seq_cst) const noexcept { __builtin_trap(); } void notify_one() noexcept {} void notify_all() noexcept {} \
};
GV_ATOMIC(bool)
GV_ATOMIC(gv::ulong_t)
