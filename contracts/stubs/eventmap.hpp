// The table of event handlers, std::map<pair<string, type_index>, vector<shared_ptr<T>>>, known through one arbitrary handler, the witness, in the vector
// of its key (IR build only): what is proved about the witness holds for every handler. This is the assumed contract of std::map and std::vector for that
// use: one entry per key, insertion, look-up, removal, iteration over all entries and all elements, copies. Other handlers and other entries are
// materialised one at a time, with arbitrary content, when they are looked at. The contract unit gives gv::EvItems<T>.
#pragma once
#include <gv/gv.hpp>
#include <cstring>
#include <map>
#include <memory>
#include <string>
#include <typeindex>
#include <vector>
extern "C" { bool gv_split(bool); void gv_merge(); void gv_unsupported(const char*); }
namespace gv
{
using EvKey = std::pair<std::string, std::type_index>;
template <typename T> struct EvItems; // void touch(): the table is accessed; bool is_witness(const EvKey&); EvKey other_key(); shared_ptr<T> other(): another handler; void left(entry): an entry of another key is put away
enum { EV_END, EV_WIT, EV_BEF, EV_AFT };
}
template <typename T, typename A> class std::vector<std::shared_ptr<T>, A>
{
public:
    using value_type = std::shared_ptr<T>; using size_type = size_t; using reference = const value_type&; using const_reference = const value_type&; using difference_type = ptrdiff_t;
    value_type w, x; mutable value_type tmp; bool rest = false; // the witness, an element just added, the other element looked at, other elements
    vector() = default; vector(const vector& o) : w(o.w), x(o.x), rest(o.rest) {} vector(vector&& o) : w(std::move(o.w)), x(std::move(o.x)), rest(o.rest) { o.rest = false; }
    vector& operator=(const vector& o) { w = o.w; x = o.x; rest = o.rest; return *this; } vector& operator=(vector&& o) { w = std::move(o.w); x = std::move(o.x); rest = o.rest; o.rest = false; return *this; }
    struct iterator
    {
        using iterator_category = std::forward_iterator_tag; using value_type = std::shared_ptr<T>; using difference_type = ptrdiff_t; using pointer = const value_type*; using reference = const value_type&;
        const vector* v = nullptr; int at = gv::EV_END; bool first = false; reference operator*() const { return v->deref(*this); } pointer operator->() const { return &**this; }
        iterator& operator++() { v->next(*this); return *this; } iterator operator++(int) { iterator o = *this; ++*this; return o; }
        bool operator==(const iterator& o) const { if ((at == gv::EV_BEF | at == gv::EV_AFT) & at == o.at) gv_unsupported("two elements compared"); return at == o.at; } bool operator!=(const iterator& o) const { return !(*this == o); }
    };
    using const_iterator = iterator;
    iterator begin() const { if (x) gv_unsupported("iteration over a vector just added to"); if (!w & !rest) return {this, gv::EV_END, true}; if (!rest) return {this, gv::EV_WIT, true}; if (!w) return {this, gv::EV_AFT, true}; return {this, gv_split(gv::any<bool>("witness first")) ? gv::EV_WIT : gv::EV_BEF, true}; }
    iterator end() const { return {this, gv::EV_END, false}; } iterator cbegin() const { return begin(); } iterator cend() const { return end(); }
    bool empty() const { return !w && !x && !rest; } size_type size() const { const uint64_t r = gv_any_range("other handlers", 0, 1ll << 40); gv_assume((r > 0) == rest); return r + !!w + !!x; } void reserve(size_t) {} void shrink_to_fit() {}
    void clear() { w.reset(); x.reset(); tmp.reset(); rest = false; }
    void push_back(value_type v) { if (x) gv_unsupported("two handlers added"); x = std::move(v); } template <typename... U> const value_type& emplace_back(U&&... u) { push_back(value_type(std::forward<U>(u)...)); return x; }
    const value_type& back() const { if (!x) gv_unsupported("the last of arbitrary handlers"); return x; }
    iterator erase(iterator i) { gv::ensures(i.at != gv::EV_END, "only an element of the vector is erased"); iterator n = i; next(n); n.first = false; if (i.at == gv::EV_WIT) w.reset(); else lose(); return n; }
    void pop_back() { gv::ensures(!empty(), "only an element of the vector is removed"); if (x) x.reset(); else if (w && (!rest || gv_split(gv::any<bool>("the last")))) w.reset(); else lose(); }
    const value_type& operator[](size_t) const { gv_unsupported("elements by position"); return w; } const value_type& front() const { gv_unsupported("elements by position"); return w; }
    void lose() { rest = gv_split(gv::any<bool>("other handlers left")); tmp.reset(); }
private:
    void next(iterator& i) const
    {
        gv::ensures(i.at != gv::EV_END, "an iterator is not advanced past the end"); tmp.reset(); const bool f = i.first; i.first = false;
        if (i.at == gv::EV_WIT) i.at = rest && (f || gv_split(gv::any<bool>("more"))) ? gv::EV_AFT : gv::EV_END; else if (i.at == gv::EV_BEF) i.at = gv_split(gv::any<bool>("more")) ? gv::EV_BEF : gv::EV_WIT; else i.at = gv_split(gv::any<bool>("more")) ? gv::EV_AFT : gv::EV_END;
    }
    const value_type& deref(const iterator& i) const { gv::ensures(i.at != gv::EV_END, "only an element of the vector is accessed"); if (i.at == gv::EV_WIT) { gv::ensures(!!w, "only an element of the vector is accessed"); return w; } if (!tmp) tmp = gv::EvItems<T>::other(); return tmp; }
};
namespace std
{
template <typename T, typename A, typename P> size_t erase_if(vector<shared_ptr<T>, A>& v, P p)
{
    size_t n = 0; if (v.x) gv_unsupported("a vector just added to"); if (v.w && p(v.w)) { v.w.reset(); ++n; }
    if (v.rest) { const shared_ptr<T> o = gv::EvItems<T>::other(); if (gv_split(p(o))) { v.lose(); n += gv_any_range("removed", 1, 1ll << 40); } }
    return n;
}
}
template <typename T, typename C, typename A> class std::map<gv::EvKey, std::vector<std::shared_ptr<T>>, C, A>
{
public:
    using key_type = gv::EvKey; using mapped_type = std::vector<std::shared_ptr<T>>; using value_type = std::pair<const key_type, mapped_type>; using size_type = size_t; using reference = value_type&; using items = gv::EvItems<T>;
    struct Entry { bool on = false; alignas(value_type) unsigned char b[sizeof(value_type)] = {}; value_type& get() { return *reinterpret_cast<value_type*>(b); } void set(const key_type& k) { new (b) value_type(k, mapped_type()); on = true; } void drop() { if (on) { get().~value_type(); on = false; memset(b, 0, sizeof b); } } };
    mutable Entry w, o; mutable bool known = false, rest = false; mutable key_type* key = nullptr; // the entry of the witness' key, the one of another key; whether that key was looked up; other entries
    map() = default; map(const map&) = delete; ~map() { w.drop(); o.drop(); delete key; }
    struct iterator
    {
        using iterator_category = std::forward_iterator_tag; using value_type = map::value_type; using difference_type = ptrdiff_t; using pointer = value_type*; using reference = value_type&;
        const map* m = nullptr; int at = gv::EV_END; bool first = false; reference operator*() const { return m->deref(*this); } pointer operator->() const { return &**this; }
        iterator& operator++() { m->next(*this); return *this; } iterator operator++(int) { iterator o = *this; ++*this; return o; }
        bool operator==(const iterator& i) const { return at == i.at; } bool operator!=(const iterator& i) const { return at != i.at; }
    };
    using const_iterator = iterator;
    iterator begin() const { items::touch(); if (!w.on & !rest) return {this, gv::EV_END, true}; if (!rest) return {this, gv::EV_WIT, true}; forget(); if (!w.on) return {this, gv::EV_AFT, true}; return {this, gv_split(gv::any<bool>("witness first")) ? gv::EV_WIT : gv::EV_BEF, true}; }
    iterator end() const { return {this, gv::EV_END, false}; } iterator cbegin() const { return begin(); } iterator cend() const { return end(); }
    bool empty() const { items::touch(); return !w.on && !(known && o.on) && !rest; } size_type size() const { items::touch(); const uint64_t r = gv_any_range("other events", 0, 1ll << 40); gv_assume((r > 0) == rest); return r + w.on; }
    iterator find(const key_type& k) const { items::touch(); if (gv_split(items::is_witness(k))) return {this, w.on ? gv::EV_WIT : gv::EV_END, false}; return {this, ask(k) ? gv::EV_BEF : gv::EV_END, false}; }
    bool contains(const key_type& k) const { return find(k).at != gv::EV_END; } size_type count(const key_type& k) const { return contains(k); }
    mapped_type& at(const key_type& k) const { const iterator i = find(k); gv::ensures(i.at != gv::EV_END, "only an entry of the map is accessed"); return i->second; }
    std::pair<iterator, bool> try_emplace(const key_type& k) { const iterator i = find(k); if (i.at != gv::EV_END) return {i, false}; if (items::is_witness(k)) { w.set(k); return {{this, gv::EV_WIT, false}, true}; } o.set(k); return {{this, gv::EV_BEF, false}, true}; }
    mapped_type& operator[](const key_type& k) { return try_emplace(k).first->second; }
    size_type erase(const key_type& k) { const iterator i = find(k); if (i.at == gv::EV_END) return 0; (i.at == gv::EV_WIT ? w : o).drop(); return 1; }
    iterator erase(iterator i) { gv::ensures(i.at != gv::EV_END, "only an entry of the map is erased"); iterator n = i; if (i.at != gv::EV_WIT) { deref(i); o.drop(); rest = gv_split(gv::any<bool>("other events left")); } next(n); n.first = false; if (i.at == gv::EV_WIT) w.drop(); return n; }
    void clear() { items::touch(); w.drop(); o.drop(); rest = false; delete key; key = nullptr; known = false; }
    void forget() const { if (known) { if (o.on) items::left(o.get()); o.drop(); delete key; key = nullptr; known = false; } }
private:
    bool ask(const key_type& k) const
    {
        if (known && gv_split(*key == k)) return o.on;
        forget(); known = true; key = new key_type(k); if (rest && gv_split(gv::any<bool>("such an event"))) { o.set(k); o.get().second.rest = true; } return o.on;
    }
    value_type& deref(const iterator& i) const
    {
        items::touch(); gv::ensures(i.at != gv::EV_END, "only an entry of the map is accessed"); if (i.at == gv::EV_WIT) { gv::ensures(w.on, "only an entry of the map is accessed"); return w.get(); }
        if (!known) { known = true; key = new key_type(items::other_key()); o.set(*key); o.get().second.rest = true; } gv::ensures(o.on, "only an entry of the map is accessed"); return o.get();
    }
    void next(iterator& i) const
    {
        items::touch(); gv::ensures(i.at != gv::EV_END, "an iterator is not advanced past the end"); forget(); const bool f = i.first; i.first = false;
        if (i.at == gv::EV_WIT) i.at = rest && (f || gv_split(gv::any<bool>("more"))) ? gv::EV_AFT : gv::EV_END; else if (i.at == gv::EV_BEF) i.at = gv_split(gv::any<bool>("more")) ? gv::EV_BEF : gv::EV_WIT; else i.at = gv_split(gv::any<bool>("more")) ? gv::EV_AFT : gv::EV_END;
    }
};
namespace std
{
template <typename T, typename C, typename A, typename P> size_t erase_if(map<gv::EvKey, vector<shared_ptr<T>>, C, A>& m, P p)
{
    gv::EvItems<T>::touch(); size_t n = 0; if (m.w.on && gv_split(p(m.w.get()))) { m.w.drop(); ++n; }
    if (m.rest) { m.forget(); typename map<gv::EvKey, vector<shared_ptr<T>>, C, A>::iterator i{&m, gv::EV_AFT, false}; if (gv_split(p(*i))) { m.o.drop(); m.rest = gv_split(gv::any<bool>("other events left")); n += gv_any_range("removed", 1, 1ll << 40); } m.forget(); }
    return n;
}
}
