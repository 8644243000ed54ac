// std::multimap<time_point, V> known through one arbitrary element, the witness, and the existence of other elements (IR build only). What is proved
// about the witness holds for every element. This is the assumed contract of std::multimap: sorted iteration, upper_bound/lower_bound, stable iterators,
// insertion, removal, merge. Other elements are materialised one at a time, with arbitrary content, when they are looked at.
// The contract unit gives gv_map_sync (content of a shared map at the start of a critical section) and gv::MapItems<V>.
#pragma once
#include <gv/gv.hpp>
#include <map>
#include <memory>
#include <chrono>
#include <cstring>
extern "C" void gv_merge(); // the case distinctions made so far are over
extern "C" void gv_tag(int); // paths with another number stay apart, the case distinctions made so far are over
extern "C" bool gv_split(bool); // a case distinction whose cases are not merged again
namespace gv
{
using tpoint = std::chrono::steady_clock::time_point;
inline int64_t ns(tpoint t) { return t.time_since_epoch().count(); }
inline tpoint at_ns(int64_t t) { return tpoint(std::chrono::nanoseconds(t)); }
inline int64_t instant(const char* what) { return gv_any_range(what, -(1ll << 60), 1ll << 60); }
enum { END, WIT, BEF, AFT, CUT };                                  // where an iterator is: past the end, at the witness, at another element before or after it, at the first element later than thr
struct MapState { bool stale = false, shared = false; char rest = 0; int first = 0; bool have_fk = false, have_rk = false; int64_t fk = 0, rk = 0; }; // rest: other elements (2: perhaps, a local map); first: 1 the witness, 2 another element with key fk
inline uint64_t map_size = 0;                                      // what size() answered
template <typename V> struct MapItems;                             // V make(bool witness), bool is_witness(const V&), sync(map&), merged(map&): another map was merged into this one
template <typename V> struct Slot
{
    using P = std::pair<const tpoint, V>; bool on = false; alignas(P) mutable unsigned char b[sizeof(P)];
    P& get() const { return *reinterpret_cast<P*>(b); }
    void set(P&& p) { ensures(!on, "an element is stored once"); new (b) P(std::move(p)); on = true; }
    void drop() { if (on) { get().~P(); on = false; memset(b, 0, sizeof b); } }
    ~Slot() { drop(); }
};
}
template <typename V, typename C, typename A> class std::multimap<gv::tpoint, V, C, A>
{
public:
    using key_type = gv::tpoint; using mapped_type = V; using value_type = std::pair<const gv::tpoint, V>; using size_type = size_t; using difference_type = ptrdiff_t; using reference = value_type&; using const_reference = const value_type&;
    mutable gv::MapState s; gv::Slot<V> w, x, tmp;                 // the witness, an element stored in this critical section, the other element looked at
    multimap() { gv::MapItems<V>::born(*this); }
    multimap(multimap&& o) { take(o); }
    multimap& operator=(multimap&& o) { clear(); take(o); return *this; }
    ~multimap() { gv::MapItems<V>::died(*this); }
    void swap(multimap& o) { multimap t(std::move(o)); o.take(*this); take(t); }
    struct iterator
    {
        using iterator_category = std::bidirectional_iterator_tag; using value_type = multimap::value_type; using difference_type = ptrdiff_t; using pointer = value_type*; using reference = value_type&;
        multimap* m; int at; bool first, walked; int64_t thr;
        reference operator*() const { return m->deref(*this); } pointer operator->() const { return &m->deref(*this); }
        iterator& operator++() { m->next(*this); return *this; } iterator operator++(int) { iterator o = *this; m->next(*this); return o; }
        bool operator==(const iterator& o) const { return m->same(*this, o); } bool operator!=(const iterator& o) const { return !m->same(*this, o); }
    };
    using const_iterator = iterator;
    iterator begin() { sync(); one(); w.on = gv_split(w.on); s.rest = gv_split(rest()); if (!w.on & !s.rest) return {this, gv::END, true, false, 0}; if (!s.rest) return {this, gv::WIT, true, false, 0}; if (!w.on) return {this, gv::AFT, true, false, 0}; choose(); return {this, s.first == 1 ? gv::WIT : gv::BEF, true, false, 0}; }
    iterator end() { sync(); return {this, gv::END, false, false, 0}; } iterator cbegin() { return begin(); } iterator cend() { return end(); }
    bool empty() const { sync(); return !w.on & !x.on & !rest(); }
    size_type size() const { sync(); const uint64_t r = gv_any_range("other elements", 0, 1ll << 40); gv_assume((r > 0) == rest()); return gv::map_size = r + w.on + x.on; }
    iterator upper_bound(const gv::tpoint& t) { sync(); one(); return {this, gv::CUT, false, false, gv::ns(t)}; }
    iterator lower_bound(const gv::tpoint& t) { sync(); one(); return {this, gv::CUT, false, false, gv::ns(t) - 1}; }
    iterator erase(iterator it)
    {
        sync(); gv::ensures(it.at != gv::END, "only an element of the map is erased"); if (it.at == gv::CUT) gv_unsupported("erase at a bound");
        iterator n = it; next(n); n.first = false;
        if (it.at == gv::WIT) { w.drop(); if (x.on && gv::MapItems<V>::is_witness(x.get().second)) { w.set(std::move(x.get())); x.drop(); } } else lose();
        s.first = 0; s.have_fk = false; s.fk = 0; return n;
    }
    iterator erase(iterator a, iterator b)
    {
        sync(); one(); if (!a.first & a.at != gv::END) gv_unsupported("erase from the middle");
        const bool all = b.at == gv::END;
        if (w.on) { bool in = a.at != gv::END & (all | b.at == gv::AFT); if (b.at == gv::CUT) in = gv::ns(w.get().first) <= b.thr; if (in) w.drop(); }
        if (a.at == gv::END) return b;
        if (all) s.rest = 0; else lose();
        s.first = 0; s.have_fk = false; s.fk = 0; tmp.drop(); s.have_rk = false; s.rk = 0; return b;
    }
    void clear() { sync(); w.drop(); x.drop(); tmp.drop(); s.rest = 0; s.first = 0; s.have_fk = s.have_rk = false; s.fk = s.rk = 0; }
    template <typename... T> iterator emplace(T&&... t) { return put(value_type(std::forward<T>(t)...)); }
    template <typename... T> iterator emplace_hint(iterator, T&&... t) { return put(value_type(std::forward<T>(t)...)); }
    iterator insert(value_type&& v) { return put(std::move(v)); }
    void merge(multimap& o) { sync(); o.sync(); if (o.x.on) { put(std::move(o.x.get())); o.x.drop(); } if (o.w.on) { put(std::move(o.w.get())); o.w.drop(); } more(o); changed(); o.changed(); gv::MapItems<V>::merged(*this); }
    void merge(multimap&& o) { merge(o); }
    struct node_type { gv::Slot<V> n; gv::tpoint k; bool empty() const { return !n.on; } explicit operator bool() const { return n.on; } gv::tpoint& key() { return k; } V& mapped() { return n.get().second; } };
    node_type extract(iterator it) { node_type n; value_type& v = deref(it); n.k = v.first; n.n.set(std::move(v)); erase(it); return n; }
    iterator insert(node_type&& n) { if (n.empty()) return end(); iterator i = put(value_type(n.k, std::move(n.n.get().second))); n.n.drop(); return i; }
    void sync() const { gv_access(this, sizeof(*this), true); if (s.stale) { s.stale = false; gv::MapItems<V>::sync(const_cast<multimap&>(*this)); } }
private:
    bool rest() const { return s.rest == 2 ? gv::any<bool>("others") : s.rest == 1; }
    void lose() { if (s.rest == 1) s.rest = gv::any<bool>("others left"); }
    void more(multimap& o) { if (s.rest != 2) s.rest = (s.rest == 1) | o.rest(); o.s.rest = 0; }
    void one() { if (x.on) gv_unsupported("iteration over a map just added to"); }
    void changed() { s.first = 0; s.have_fk = false; s.fk = 0; }
    void take(multimap& o) { o.sync(); sync(); if (o.x.on | x.on) gv_unsupported("a map just added to is moved"); if (o.w.on) { w.set(std::move(o.w.get())); o.w.drop(); } more(o); changed(); o.changed(); }
    void choose() { if (s.first) return; s.first = gv_split(gv::any<bool>("witness first")) ? 1 : 2; }
    int64_t fkey() { if (!s.have_fk) { s.have_fk = true; s.fk = gv::instant("first"); if (w.on) gv_assume(s.fk <= gv::ns(w.get().first)); } return s.fk; }
    int64_t key(const iterator& i)
    {
        if (i.at == gv::WIT) return gv::ns(w.get().first);
        if (i.first) return fkey();
        if (!s.have_rk) { s.have_rk = true; s.rk = gv::instant("other"); if (w.on & i.at == gv::BEF) gv_assume(s.rk <= gv::ns(w.get().first)); if (w.on & i.at == gv::AFT) gv_assume(s.rk >= gv::ns(w.get().first)); if (s.have_fk) gv_assume(s.rk >= s.fk); }
        return s.rk;
    }
    void next(iterator& i)
    {
        gv_access(this, sizeof(*this), true); gv::ensures(i.at != gv::END, "an iterator is not advanced past the end"); if (i.at == gv::CUT) gv_unsupported("iteration from a bound"); tmp.drop(); s.have_rk = false; s.rk = 0; const bool f = i.first; i.first = false;
        if (i.at == gv::WIT) i.at = rest() && ((f & s.first == 1) || gv_split(gv::any<bool>("more"))) ? gv::AFT : gv::END;
        else if (i.at == gv::BEF) i.at = gv_split(gv::any<bool>("more")) ? gv::BEF : gv::WIT;
        else i.at = gv_split(gv::any<bool>("more")) ? gv::AFT : gv::END;
        i.walked = i.at == gv::END; if (i.walked) { changed(); gv_merge(); } else gv_tag(i.at | w.on << 3 | (s.rest == 1) << 4 | s.first << 5);
    }
    bool same(const iterator& a, const iterator& b)
    {
        if (a.at == gv::CUT & b.at == gv::CUT) { if (a.thr == b.thr) return true; gv_unsupported("two bounds compared"); }
        if (b.at == gv::CUT) { if (a.at != gv::END) return key(a) > b.thr; if (a.walked) return true; if (w.on && gv::ns(w.get().first) > b.thr) return false; return rest() ? gv::any<bool>("none later") : true; }
        if (a.at == gv::CUT) return same(b, a);
        if (a.at != b.at) return false; if (a.at == gv::END | a.at == gv::WIT) return true;
        if (a.first == b.first & a.first) return true; gv_unsupported("two elements compared"); return false;
    }
    value_type& deref(const iterator& i)
    {
        gv_access(this, sizeof(*this), true); gv::ensures(i.at != gv::END, "only an element of the map is accessed"); if (i.at == gv::CUT) gv_unsupported("access at a bound");
        if (i.at == gv::WIT) { gv::ensures(w.on, "only an element of the map is accessed"); return w.get(); }
        if (!tmp.on) tmp.set(value_type(gv::at_ns(key(i)), gv::MapItems<V>::other(w.on ? &w.get().second : nullptr)));
        return tmp.get();
    }
    iterator put(value_type&& v)
    {
        sync();
        if (gv::MapItems<V>::is_witness(v.second)) { if (w.on) { x.set(std::move(v)); changed(); return {this, gv::CUT, false, false, 0}; } w.set(std::move(v)); changed(); return {this, gv::WIT, false, false, 0}; }
        if (gv::MapItems<V>::keep(*this, v)) x.set(std::move(v)); else if (s.rest != 2) s.rest = 1;
        changed(); return {this, gv::CUT, false, false, 0};
    }
};
