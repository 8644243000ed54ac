// std::thread, std::latch and std::vector<std::thread> of the code under contract (IR build only; after atomics.hpp, before the repository headers).
#pragma once
#define _GLIBCXX_LATCH 1
#include "conc.hpp"
#include <thread>
#include <vector>
void gv_on_thread(std::thread::_State* body); // the thread body; freed when the hook returns unless kept
bool gv_keep_body(); void gv_on_vector(void* v);
void gv_on_join(std::thread* t); void gv_on_latch(int64_t expected, int64_t arrive, bool wait);
namespace std
{
class latch
{
public:
    static constexpr ptrdiff_t max() noexcept { return __PTRDIFF_MAX__; }
    constexpr explicit latch(ptrdiff_t e) noexcept : e_(e) {}
    latch(const latch&) = delete; latch& operator=(const latch&) = delete;
    void count_down(ptrdiff_t n = 1) { gv_on_latch(e_, n, false); } bool try_wait() const noexcept { return gv::any<bool>("latch open"); }
    void wait() const { gv_on_latch(e_, 0, true); } void arrive_and_wait(ptrdiff_t n = 1) { gv_on_latch(e_, n, true); }
private:
    ptrdiff_t e_;
};
}
namespace gv { inline unsigned hw = 0; inline std::thread::id running_id() { std::thread::id i; i._M_thread = 77; return i; } }
std::thread::_State::~_State() = default;
void std::thread::_M_start_thread(_State_ptr s, void (*)()) { gv_on_thread(s.get()); _M_id = gv::running_id(); if (gv_keep_body()) s.release(); }
void std::thread::join() { gv::ensures(joinable(), "only a running thread is joined"); gv_access(this, sizeof(*this), true); gv_on_join(this); _M_id = id(); }
void std::thread::detach() { gv::ensures(false, "threads are joined, never detached"); _M_id = id(); }
unsigned std::thread::hardware_concurrency() noexcept { return gv::hw; }
// n threads of which those numbered [jlo, jhi) have been joined; an element is materialised when it is looked at
template <> class std::vector<std::thread>
{
public:
    using value_type = std::thread; using size_type = size_t; using reference = std::thread&;
    uint64_t n = 0, jlo = 0, jhi = 0, idx = 0; mutable std::thread cur;
    vector() { gv_on_vector(this); } ~vector() { clear(); cur._M_id = {}; }
    vector(vector&& o) : n((o.use(), o.n)), jlo(o.jlo), jhi(o.jhi) { o.n = o.jlo = o.jhi = 0; }
    vector& operator=(vector&& o) { clear(); o.use(); n = o.n; jlo = o.jlo; jhi = o.jhi; o.n = o.jlo = o.jhi = 0; return *this; }
    void swap(vector& o) { vector t(std::move(o)); o = std::move(*this); *this = std::move(t); }
    void reserve(size_t) {} size_t size() const { use(); return n; } bool empty() const { use(); return n == 0; } size_t capacity() const { return n; } void shrink_to_fit() {}
    void use() const { gv_access(this, sizeof(*this), true); }
    bool joined(uint64_t i) const { return i >= jlo & i < jhi; }
    std::thread& at(uint64_t i) { use(); gv::ensures(i < n, "a thread of the vector is accessed"); idx = i; if (joined(i)) cur._M_id = {}; else cur._M_id = gv::running_id(); return cur; }
    std::thread& operator[](uint64_t i) { return at(i); } std::thread& front() { return at(0); } std::thread& back() { return at(n - 1); }
    template <typename... A> std::thread& emplace_back(A&&... a) { use(); { std::thread t(std::forward<A>(a)...); t._M_id = {}; } ++n; return at(n - 1); }
    void push_back(std::thread&& t) { use(); gv::ensures(t.joinable(), "a running thread is stored"); t._M_id = {}; ++n; }
    void mark() { if (jlo == jhi) { jlo = idx; jhi = idx + 1; } else if (idx == jhi) ++jhi; else if (idx + 1 == jlo) --jlo; else gv_unsupported("threads joined out of order"); }
    void clear() { use(); gv::ensures(n == 0 | (jlo == 0 & jhi == n), "no running thread is destroyed"); n = jlo = jhi = 0; cur._M_id = {}; }
    void pop_back() { use(); gv::ensures(n > 0, "pop_back of a non-empty vector"); gv::ensures(joined(n - 1), "no running thread is destroyed"); --n; if (jhi > n) jhi = n; if (jlo > jhi) jlo = jhi; }
    struct iterator { using iterator_category = std::random_access_iterator_tag; using value_type = std::thread; using difference_type = ptrdiff_t; using pointer = std::thread*; using reference = std::thread&;
        vector* v; uint64_t i; std::thread& operator*() const { return v->at(i); } std::thread* operator->() const { return &v->at(i); } iterator& operator++() { gv::ensures(i < v->n, "an iterator is not advanced past the end"); ++i; return *this; } iterator operator++(int) { iterator o = *this; ++*this; return o; } iterator& operator--() { gv::ensures(i > 0, "an iterator is not moved before the begin"); --i; return *this; }
        // an iterator is never past the end (operator++), so being different from the end is being before it
        bool operator!=(const iterator& o) const { return o.i == v->n ? i < o.i : i != o.i; } bool operator==(const iterator& o) const { return !(*this != o); } ptrdiff_t operator-(const iterator& o) const { return i - o.i; } iterator operator+(ptrdiff_t k) const { return {v, i + k}; } };
    iterator begin() { use(); return {this, 0}; } iterator end() { use(); return {this, n}; }
};
