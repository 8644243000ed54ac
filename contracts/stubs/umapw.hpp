// std::unordered_map<size_t, std::shared_ptr<void>> known through one arbitrary key, the witness, and at most one other key at a time (IR build only):
// what is proved about the witness holds for every key. This is the assumed contract of std::unordered_map: one entry per key, insertion keeps the
// entry that is there, look-up by key, removal. Entries of other keys are there or not, arbitrarily, with values that are of no use.
#pragma once
#include <gv/gv.hpp>
#include <memory>
#include <unordered_map>
extern "C" bool gv_split(bool); extern "C" void gv_unsupported(const char*);
namespace gv { inline size_t witness_key = 0; inline char elsewhere; }
template <typename H, typename Q, typename A> class std::unordered_map<size_t, std::shared_ptr<void>, H, Q, A>
{
public:
    using key_type = size_t; using mapped_type = std::shared_ptr<void>; using value_type = std::pair<const size_t, mapped_type>; using size_type = size_t;
    struct Entry { mutable bool on = false; alignas(value_type) mutable unsigned char b[sizeof(value_type)] = {}; value_type& get() const { return *reinterpret_cast<value_type*>(b); } void set(size_t k, mapped_type&& v) const { new (b) value_type(k, std::move(v)); on = true; } void drop() const { if (on) { get().~value_type(); on = false; } } };
    Entry w, o; mutable bool known = false; mutable size_t key = 0;
    unordered_map() = default; unordered_map(const unordered_map&) = delete; ~unordered_map() { clear(); }
    struct iterator
    {
        const Entry* e; value_type& operator*() const { gv::ensures(e && e->on, "only an entry of the map is accessed"); return e->get(); } value_type* operator->() const { return &**this; }
        iterator& operator++() { gv_unsupported("iteration over the services"); return *this; } bool operator==(const iterator& i) const { return e == i.e; } bool operator!=(const iterator& i) const { return e != i.e; }
    };
    using const_iterator = iterator;
    iterator end() const { return {nullptr}; } iterator cend() const { return end(); } iterator begin() const { gv_unsupported("iteration over the services"); return end(); }
    iterator find(size_t k) const { const Entry& e = at_(k); return {gv_split(e.on) ? &e : nullptr}; }
    bool contains(size_t k) const { return at_(k).on; } size_type count(size_t k) const { return contains(k); }
    mapped_type& at(size_t k) { return (*find(k)).second; } const mapped_type& at(size_t k) const { return (*find(k)).second; }
    mapped_type& operator[](size_t k) { return try_emplace(k).first->second; }
    template <typename K, typename V> std::pair<iterator, bool> emplace(K&& k, V&& v) { mapped_type n(std::forward<V>(v)); return put(k, std::move(n)); }
    template <typename... V> std::pair<iterator, bool> try_emplace(size_t k, V&&... v) { const Entry& e = at_(k); if (gv_split(e.on)) return {iterator{&e}, false}; e.set(k, mapped_type(std::forward<V>(v)...)); return {iterator{&e}, true}; }
    std::pair<iterator, bool> insert(value_type&& v) { return put(v.first, std::move(v.second)); } std::pair<iterator, bool> insert(const value_type& v) { return put(v.first, mapped_type(v.second)); }
    template <typename P> requires std::is_constructible_v<value_type, P&&> std::pair<iterator, bool> insert(P&& p) { value_type v(std::forward<P>(p)); return put(v.first, std::move(v.second)); }
    template <typename V> std::pair<iterator, bool> insert_or_assign(size_t k, V&& v) { const Entry& e = at_(k); if (gv_split(e.on)) { e.get().second = std::forward<V>(v); return {iterator{&e}, false}; } return put(k, mapped_type(std::forward<V>(v))); }
    size_type erase(size_t k) { const Entry& e = at_(k); if (!gv_split(e.on)) return 0; e.drop(); return 1; }
    iterator erase(iterator i) { gv::ensures(i.e && i.e->on, "only an entry of the map is erased"); i.e->drop(); return end(); }
    struct node_type { mapped_type v; bool on; bool empty() const { return !on; } explicit operator bool() const { return on; } mapped_type& mapped() { return v; } };
    node_type extract(size_t k) { const Entry& e = at_(k); if (!gv_split(e.on)) return {nullptr, false}; node_type n{std::move(e.get().second), true}; e.drop(); return n; }
    void clear() { w.drop(); o.drop(); known = false; }
    bool empty() const { return !w.on && gv::any<bool>("no other services"); } size_type size() const { return (size_type)gv_any_range("services", w.on, 1 << 30); } void reserve(size_t) {}
private:
    const Entry& at_(size_t k) const
    {
        if (k == gv::witness_key) return w;
        if (!known || key != k) { o.drop(); known = true; key = k; if (gv_split(gv::any<bool>("other registered"))) o.set(k, mapped_type(mapped_type(), &gv::elsewhere)); }
        return o;
    }
    std::pair<iterator, bool> put(size_t k, mapped_type&& v) { const Entry& e = at_(k); if (gv_split(e.on)) return {iterator{&e}, false}; e.set(k, std::move(v)); return {iterator{&e}, true}; }
};
