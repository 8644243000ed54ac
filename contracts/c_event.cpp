#include <gv/gv.hpp>
#ifdef GV_NATIVE
#include <gv/sched.hpp>
#include <event_dispatcher.cpp>
#include <thread_pool.cpp>
#include <map>
#include <string>
#include <vector>
unsigned std::thread::hardware_concurrency() noexcept { return 3; }
using disp = tc::sdk::event_dispatcher;
struct Rec { int h; std::string v; bool operator<(const Rec& o) const { return h != o.h ? h < o.h : v < o.v; } bool operator==(const Rec&) const = default; };
static std::string txt() { return ""; }
template <typename A, typename... R> static std::string txt(const A& a, const R&... r) { if constexpr (std::is_same_v<A, std::string>) return a + "," + txt(r...); else return std::to_string(a) + "," + txt(r...); }
// event names: prefixes of one another, the empty name, and names that end in digits
static std::vector<std::string> names()
{
    const auto th = [](size_t h) { return std::to_string(h); };
    const size_t i = typeid(int).hash_code(), d = typeid(double).hash_code();
    return {"a", "ab", "", "b", "a1", "a" + th(i), "a" + th(i + i), "a" + th(d), th(i)};
}
struct Reg { unsigned long id; int name, sig, h; };
struct World
{
    disp d; std::vector<Reg> regs; std::vector<Rec> log;
    template <typename... A> unsigned long add(const std::string& n, int h) { return d.add_handler<A...>(n, [this, h](A... a) { log.push_back({h, txt(a...)}); if (h % 7 == 6) throw 1; }); }
    unsigned long add(int sig, const std::string& n, int h)
    {
        switch (sig) { case 0: return add<>(n, h); case 1: return add<int>(n, h); case 2: return add<int, int>(n, h); case 3: return add<int, double>(n, h); case 4: return add<double, int>(n, h); case 5: return add<std::string>(n, h); case 6: return add<double>(n, h); default: return add<int, std::string, int>(n, h); }
    }
    bool emit(int sig, const std::string& n, int x, std::string& t)
    {
        const double y = x * 2.0; const std::string s = "s" + std::to_string(x);
        switch (sig) { case 0: t = txt(); return d.emit(n); case 1: t = txt(x); return d.emit(n, x); case 2: t = txt(x, x + 1); return d.emit(n, x, x + 1); case 3: t = txt(x, y); return d.emit(n, x, y); case 4: t = txt(y, x); return d.emit(n, y, x); case 5: t = txt(s); return d.emit(n, s); case 6: t = txt(y); return d.emit(n, y); default: t = txt(x, s, x + 1); return d.emit(n, x, s, x + 1); }
    }
};
static void history(bool ids, bool two)
{
    const int steps = gv_any_range("steps", 1, 14), workers = gv_any_range("workers", 1, 2), nn = gv_any_range("names", 1, 9), ns = gv_any_range("signatures", 1, 8); const bool drop = two && gv::any<bool>("drop");
    gv::schedule("the dispatcher's operations return", [&] {
        const auto nm = names(); int next = 0;
        World* w[2] = {new World, two ? new World : nullptr}; for (auto p : w) if (p) p->d.start(workers);
        auto settle = [&](World& x, std::vector<Rec> want, const char* l) { gv_settle(); std::sort(x.log.begin(), x.log.end()); std::sort(want.begin(), want.end()); gv::ensures(x.log == want, l); x.log.clear(); };
        auto check = [&](World& x, const char* l) { for (int n = 0; n < nn; ++n) for (int s = 0; s < ns; ++s) { std::string t; std::vector<Rec> want; const bool r = x.emit(s, nm[n], 3, t); for (auto& g : x.regs) if (g.name == n && g.sig == s) want.push_back({g.h, t}); gv::ensures(r == !want.empty(), l); settle(x, want, l); } };
        for (int k = 0; k < steps; ++k)
        {
            if (drop && k == steps / 2) { delete w[0]; w[0] = w[1]; w[1] = nullptr; }
            World& x = *w[w[1] ? gv_any_range("dispatcher", 0, 1) : 0];
            const int op = gv_any_range("op", 0, ids ? 5 : 3), n = gv_any_range("name", 0, nn - 1), s = gv_any_range("signature", 0, ns - 1);
            if (op <= 1)
            {
                const int h = next++; const unsigned long id = x.add(s, nm[n], h);
                for (auto& g : x.regs) gv::ensures(g.id != id, "the id of a new handler differs from every live one");
                x.regs.push_back({id, n, s, h});
            }
            else if (op <= 3)
            {
                std::string t; const bool r = x.emit(s, nm[n], k, t); std::vector<Rec> want; for (auto& g : x.regs) if (g.name == n && g.sig == s) want.push_back({g.h, t});
                gv::ensures(r == !want.empty(), "emit returns true exactly when a handler of that name and types is registered");
                settle(x, want, "emit calls every handler of that name and types once, with the values, and no other"); if (w[0] && &x != w[0]) gv::ensures(w[0]->log.empty(), "other dispatchers are not affected");
            }
            else if (op == 4)
            {
                unsigned long id = gv_any_range("id", 0, 20); if (!x.regs.empty() && gv::any<bool>("existing")) id = x.regs[gv_any_range("which", 0, x.regs.size() - 1)].id;
                bool had = false; for (size_t j = 0; j < x.regs.size(); ++j) if (x.regs[j].id == id) { x.regs.erase(x.regs.begin() + j); had = true; break; }
                gv::ensures(x.d.remove_handler(id) == had, "remove_handler returns true exactly when the id names a handler"); check(x, "remove_handler removes exactly the handler with that id");
            }
            else
            {
                const size_t b = x.regs.size(); std::erase_if(x.regs, [&](auto& g) { return g.name == n; });
                gv::ensures(x.d.remove_event(nm[n]) == (x.regs.size() != b), "remove_event returns true exactly when a handler of that event was registered"); check(x, "remove_event removes exactly the handlers of that event");
            }
        }
        if (w[0]) { w[0]->d.stop(); w[0]->regs.clear(); } delete w[0]; delete w[1];
    });
}
GV_CONTRACT(C06, sched_emit) { history(false, false); }
GV_CONTRACT(C06, sched_emit_removed) { history(true, false); }
GV_CONTRACT(C07, sched_remove) { history(true, false); }
GV_CONTRACT(C07, sched_dispatchers) { history(true, true); }
// emit while other threads register and remove: handlers registered throughout are called once per emit, removed or foreign ones never
GV_CONTRACT(C06, sched_concurrent)
{
    const int emits = gv_any_range("emits", 1, 4), churn = gv_any_range("churn", 0, 4), hs = gv_any_range("handlers", 0, 2);
    gv::schedule("the dispatcher's operations return", [&] {
        World x; x.d.start(2); std::vector<int> calls(hs, 0), sum(hs, 0); int foreign = 0, churned = 0; bool held = false;
        for (int h = 0; h < hs; ++h) x.d.add_handler<int>("e", [&, h](int v) { calls[h]++; sum[h] += v; held |= gv_mutexes_held() != 0; });
        x.d.add_handler<int>("f", [&](int) { ++foreign; }); x.d.add_handler<double>("e", [&](double) { ++foreign; });
        std::thread t([&] { for (int k = 0; k < churn; ++k) { const auto id = x.d.add_handler<int>("e", [&](int) { ++churned; }); gv::ensures(x.d.remove_handler(id), "remove_handler returns true exactly when the id names a handler"); } });
        int want = 0; bool ok = true; for (int k = 0; k < emits; ++k) { const bool r = x.d.emit("e", 10 + k); ok &= r || hs == 0; want += 10 + k; }
        t.join(); gv_settle(); const int mark = churned; if (!hs) gv::ensures(!x.d.emit("e", 1), "a removed handler is not called"); else x.d.emit("e", 0); gv_settle();
        gv::ensures(ok, "emit returns true when a handler is registered"); gv::ensures(foreign == 0, "handlers of other events or types are not called"); gv::ensures(churned == mark && churned <= emits * churn, "a removed handler is not called"); gv::ensures(!held, "no lock is held while a handler runs");
        for (int h = 0; h < hs; ++h) gv::ensures(calls[h] == emits + 1 && sum[h] == want, "emit calls every handler of that name and types once, with the values");
    });
}
GV_CONTRACT(C07, sched_concurrent)
{
    const int n = gv_any_range("threads", 2, 3), per = gv_any_range("handlers", 1, 3);
    gv::schedule("the dispatcher's operations return", [&] {
        disp d; d.start(1); std::vector<unsigned long> ids; std::vector<std::thread> th; int calls = 0; std::vector<std::vector<unsigned long>> mine(n);
        for (int t = 0; t < n; ++t) th.emplace_back([&, t] { for (int k = 0; k < per; ++k) mine[t].push_back(d.add_handler<>("e", [&] { ++calls; })); });
        for (auto& t : th) t.join();
        for (auto& m : mine) for (auto i : m) ids.push_back(i); std::sort(ids.begin(), ids.end());
        gv::ensures(std::adjacent_find(ids.begin(), ids.end()) == ids.end(), "the id of a new handler differs from every live one");
        d.emit("e"); gv_settle(); gv::ensures(calls == n * per, "every handler registered is called"); 
        gv::ensures(d.remove_handler(mine[n - 1][0]), "remove_handler returns true exactly when the id names a handler"); calls = 0; d.emit("e"); gv_settle(); gv::ensures(calls == n * per - 1, "remove_handler removes exactly the handler with that id");
    });
}
#else
// Monitor proofs: the table of handlers belongs to the handlers mutex and is known through one handler, the witness, registered for the name wn_ and (int)
// or not registered. In each critical section other threads may have changed everything else; ids in use are at most _last_handler_id.
#include "stubs/conc.hpp"
#include "stubs/eventmap.hpp"
extern "C" int strcmp(const char* a, const char* b) noexcept { while (*a && *a == *b) ++a, ++b; return (unsigned char)*a - (unsigned char)*b; }
#include <event_dispatcher.cpp>
using disp = tc::sdk::event_dispatcher; using base = disp::base_handler_t; using hptr = std::shared_ptr<base>; using entry_t = std::pair<const gv::EvKey, std::vector<hptr>>;
enum { SETUP, EMIT, ADD, REMOVE, EVENT, STOP, START }; enum { NONE, WITNESS, ANY };
static int mode_, which_, prop_; static disp* d_; static void* H_; static std::string *wn_, *on_; static hptr proto_;
static int calls_, pools_, sections_; static bool in_, before_, after_, asked_, cleared_; static uint64_t last_, id_, wid_, newid_; static int added_, own_;
static gv::Job* kept_; static bool same_, tpstop_, tpret_; static unsigned tpn_;
static std::type_index wt() { return std::type_index(typeid(void(int))); } static std::type_index ot_{typeid(void)};
static void em(bool c, const char* l) { if (prop_ == 6) gv::ensures(c, l); } static void rm(bool c, const char* l) { if (prop_ == 7) gv::ensures(c, l); }
static std::string text(const char* what, int n) { char b[18]; for (int k = 0; k < n; ++k) b[k] = gv::any<char>(what); return std::string(b, n); }
static bool one(const char* what) { return gv_split(gv::any<bool>(what)); }
static hptr (*make_)(uint64_t id);
template <typename... A> static std::tuple<A...>* want_; // the values emitted
template <typename... A> struct Other { void operator()(A... a) const { ++own_; if (want_<A...>) em(std::tie(a...) == *want_<A...>, "a handler is called with the emitted values"); } };
template <typename... A> static hptr make_other(uint64_t id) { return std::make_unique<disp::handler_t<A...>>(id, std::function<void(A...)>(Other<A...>{})); }
namespace gv
{
template <> struct EvItems<base>
{
    static bool is_witness(const EvKey& k) { return wn_ && k.second == wt() && k.first == *wn_; }
    static EvKey other_key() { EvKey k(one("the name asked for") ? *on_ : one("the witness' name") ? *wn_ : text("other name", 2), one("the types asked for") ? ot_ : std::type_index(typeid(void(char)))); gv_assume(!is_witness(k)); if (mode_ == EVENT & which_ == NONE) gv_assume(k.first != *on_); return k; }
    static hptr other() { const uint64_t i = gv_any_range("other id", 1, 1ll << 61); gv_assume(i <= last_ & (!wid_ | i != wid_)); if (mode_ == REMOVE & which_ != ANY) gv_assume(i != id_); return make_(i); }
    static void left(entry_t& e);
    static void touch() { gv_access(&d_->_handlers, sizeof(d_->_handlers), true); gv::ensures(in_ | mode_ == SETUP, "the handlers are only touched under their mutex"); }
};
}
static void fresh(const hptr& h) { ++added_; newid_ = h->id; rm(newid_ != wid_ | !wid_, "the id of a new handler differs from every live one"); rm(newid_ > last_ & newid_ <= d_->_last_handler_id, "the ids in use are at most the last one given"); gv::ensures(mode_ == ADD, "only add_handler adds handlers"); }
static void called();
void gv::EvItems<base>::left(entry_t& e)
{
    gv::ensures(!e.second.empty(), "an event without handlers is forgotten"); if (e.second.w && proto_ && e.second.w.get() == proto_.get()) gv::ensures(false, "a handler stays with its event and types");
    if (mode_ == ADD && e.second.x) { fresh(e.second.x); em(e.first.second == ot_ && e.first.first == *on_, "a new handler is registered for the name and types given"); const hptr h = e.second.x; kept_ = nullptr; proto_ = h; called(); }
}
static std::function<void()> call_; static void called() { const int c = own_; call_(); em(own_ == c + 1, "what is registered is the function given"); proto_.reset(); }
static void clear_() { in_ = true; d_->_handlers.clear(); wid_ = 0; }
static int emitted_; struct WGhost { void operator()(int x) const { ++calls_; em(x == emitted_, "a handler is called with the emitted values"); } };
void gv_on_acquire(void* m)
{
    if (mode_ == SETUP) { H_ = m; return; } if (m != H_) { gv_unsupported("another mutex"); return; }
    ++sections_; { const uint64_t n = gv::count("last id"); gv_assume(n >= last_); last_ = n; } d_->_last_handler_id = last_; auto& t = d_->_handlers; clear_(); in_ = true;
    before_ = which_ == WITNESS || gv_split(gv::any<bool>("registered")); t.rest = gv_split(gv::any<bool>("other events"));
    if (before_)
    {
        wid_ = gv_any_range("id", 1, 1ll << 60); gv_assume(wid_ <= last_); if (mode_ == REMOVE) gv_assume(which_ == WITNESS ? wid_ == id_ : wid_ != id_); if (mode_ == EVENT & which_ == NONE) gv_assume(*wn_ != *on_);
        t.w.set(gv::EvKey(*wn_, wt())); t.w.get().second.w = proto_; const_cast<unsigned long&>(proto_->id) = wid_; t.w.get().second.rest = gv_split(gv::any<bool>("other handlers"));
    }
    else if (!(mode_ == EVENT & which_ == NONE & same_) && gv_split(gv::any<bool>("others of the same event and types"))) { t.w.set(gv::EvKey(*wn_, wt())); t.w.get().second.rest = true; }
}
void gv_on_release(void* m)
{
    if (mode_ == SETUP) return; if (m != H_) { gv_unsupported("another mutex"); return; }
    auto& t = d_->_handlers; after_ = false; hptr h;
    if (t.w.on)
    {
        auto& v = t.w.get().second; gv::ensures(!v.empty(), "an event without handlers is forgotten"); gv::ensures(t.w.get().first.first == *wn_ && t.w.get().first.second == wt(), "a key is kept as it is");
        if (v.w) { gv::ensures(v.w.get() == proto_.get() && v.w->id == wid_, "a handler keeps its id"); after_ = true; }
        if (v.x) { fresh(v.x); em(same_, "a new handler is registered for the name and types given"); h = v.x; }
    }
    gv::ensures(d_->_last_handler_id >= last_, "ids are never given again"); asked_ = (mode_ == EMIT) && t.contains(gv::EvKey(*on_, ot_));
    if (mode_ == EMIT || mode_ == ADD || mode_ == START) { em(after_ == before_, "emitting and registering keep every registered handler"); rm(after_ == before_, "other handlers are left untouched"); }
    if (mode_ == STOP) cleared_ = t.empty();
    if (mode_ == ADD && h) { hptr p = proto_; proto_ = h; called(); proto_ = p; } { hptr p = proto_; t.forget(); proto_ = p; }
    clear_(); in_ = false; d_->_last_handler_id = gv::count("last id of others"); gv_assume(d_->_last_handler_id > newid_);
}
void gv_on_sleep(void*, void*, bool) { gv::ensures(false, "no operation of the dispatcher blocks"); } void gv_on_wake(void*, void*) {} void gv_on_notify(void*, bool) {}
bool gv_pool_start(unsigned n) { ++pools_; tpn_ = n; return tpret_ = gv::any<bool>("started"); } bool gv_pool_stop() { ++pools_; tpstop_ = cleared_; gv::ensures(!H_ || !gv::holds(H_), "stop waits for the workers without holding a mutex a handler may need"); return tpret_ = gv::any<bool>("stopped"); } bool gv_pool_running() { return gv::any<bool>("workers running"); } uint64_t gv_pool_threads() { return gv::count("workers"); }
static void run(gv::Job* j) { const int c = calls_, o = own_; j->invoke(); em((calls_ - c) + (own_ - o) == 1, "each task handed to the workers calls one handler once"); own_ = o; delete j; }
void gv_pool_run(gv::Job* j) { em(mode_ == EMIT, "only emit calls handlers"); if (!kept_ && gv_split(gv::any<bool>("run later"))) kept_ = j; else run(j); }
alignas(disp) static unsigned char mem_[sizeof(disp)];
static void names(bool same, int mode) // the witness' event and the one asked for: empty, short or not, the same, prefixes of one another or not
{
    if (mode == REMOVE || mode == STOP || mode == START) { *wn_ = text("name", 2); *on_ = *wn_; return; }
    if (one("the witness' event") || same) { *wn_ = one("empty") ? std::string() : one("long") ? text("name", 17) : text("name", 2); *on_ = *wn_; return; }
    if (one("empty")) { *wn_ = ""; *on_ = text("asked", 2); } else { *wn_ = one("long") ? text("name", 17) : text("name", 2); *on_ = one("long asked") ? text("asked", 17) : text("asked", 2); gv_assume(*wn_ != *on_); }
}
static disp& setup(int prop, int mode, bool types, bool same = false)
{
    static std::string wn, on; prop_ = prop; mode_ = SETUP; d_ = new (mem_) disp; on_ = &on; wn_ = &wn; names(same, mode); same_ = types && *on_ == *wn_; make_ = make_other<int>; last_ = 0;
    d_->add_handler<int>(std::string(wn), WGhost{}); auto& t = d_->_handlers; gv::ensures(H_ && t.w.on && t.w.get().second.x, "a new handler is registered for the name and types given"); proto_ = t.w.get().second.x; t.clear();
    mode_ = mode; last_ = gv::count("last id so far"); sections_ = calls_ = own_ = added_ = 0; gv::race_op = prop != 29 ? 0 : mode == STOP || mode == START ? gv::CONTROL : gv::USER; gv::race(mem_, sizeof(mem_)); return *d_;
}
static void later() { gv::op = 0; if (kept_) { gv::Job* j = kept_; kept_ = nullptr; run(j); } gv::ensures(gv::held.n == 0, "every mutex is released"); gv::ensures(sections_ == 1, "each operation is one critical section"); }
template <typename... A> static void emits(bool types, int prop, A... a)
{
    disp& d = setup(prop, EMIT, types); ot_ = std::type_index(typeid(void(A...))); make_ = make_other<A...>;
    bool r; if constexpr (sizeof...(A) == 1 && (std::is_same_v<A, int> && ...)) emitted_ = (a, ...); std::tuple<A...> want(a...); want_<A...> = &want; r = d.emit(std::string(*on_), a...);
    em(r == asked_, "emit returns true exactly when a handler of that name and types is registered"); later();
    em(calls_ == (same_ & before_), "emit calls a handler exactly once if it is registered for that name and types, and not at all otherwise"); if (same_ & before_) gv::cover("called"); else gv::cover("not called");
}
GV_CONTRACT(C06, emit) { emits<int>(true, 6, 7); }
GV_CONTRACT(C06, emit_other_type) { emits<double>(false, 6, 1.5); }
GV_CONTRACT(C06, emit_nothing) { emits<>(false, 6); }
GV_CONTRACT(C06, emit_more) { emits<int, int>(false, 6, 1, 2); }
GV_CONTRACT(C06, emit_text) { emits<std::string>(false, 6, std::string("a text that is longer")); }
template <typename... A> struct Mine { void operator()(A...) const { ++own_; } };
template <typename... A> static void adds(int prop, bool types, A... a)
{
    disp& d = setup(prop, ADD, types); ot_ = std::type_index(typeid(void(A...))); make_ = make_other<A...>; call_ = [a...] { std::static_pointer_cast<disp::handler_t<A...>>(proto_)->call(a...); };
    const unsigned long r = d.add_handler<A...>(std::string(*on_), Mine<A...>{}); gv::ensures(added_ == 1, "add_handler registers one handler"); rm(r == newid_, "add_handler returns the id of the new handler"); em(r == newid_, "add_handler returns the id of the new handler"); later(); em(calls_ == 0, "registering calls no handler"); call_ = nullptr;
    if (same_) gv::cover("same event"); 
}
GV_CONTRACT(C06, add) { adds<int>(6, true, 1); }
GV_CONTRACT(C06, add_more) { adds<int, double>(6, false, 1, 2.5); }
GV_CONTRACT(C06, add_text) { adds<std::string>(6, false, std::string("text")); }
GV_CONTRACT(C07, add) { adds<int>(7, true, 1); }
GV_CONTRACT(C07, add_nothing) { adds<>(7, false); }
static void removes(int which, int prop = 7)
{
    disp& d = setup(prop, REMOVE, true); ot_ = std::type_index(typeid(void(double))); which_ = which; id_ = gv_any_range("id asked for", 0, 1ll << 62); const bool r = d.remove_handler(id_); later(); rm(added_ == 0, "only add_handler adds handlers");
    if (which == WITNESS) { rm(r, "remove_handler returns true when the id names a handler"); rm(!after_, "remove_handler removes the handler with that id"); } else rm(after_ == before_, "remove_handler removes no other handler"); if (which == NONE) rm(!r, "remove_handler returns false when the id names no handler");
    gv::cover("returns");
}
GV_CONTRACT(C07, remove_handler) { removes(WITNESS); }
GV_CONTRACT(C07, remove_no_handler) { removes(NONE); }
GV_CONTRACT(C07, remove_other_handler) { removes(ANY); }
static void removes_event(int which, int prop = 7)
{
    disp& d = setup(prop, EVENT, true, which == WITNESS); which_ = which; ot_ = std::type_index(typeid(void(double))); const bool r = d.remove_event(std::string(*on_)); later();
    if (which == WITNESS) rm(r, "remove_event returns true when a handler of that event was registered"); if (which == NONE) rm(!r, "remove_event returns false when no handler of that event was registered"); rm(after_ == (before_ & !same_), "remove_event removes exactly the handlers of that event"); gv::cover("returns");
}
GV_CONTRACT(C07, remove_event) { removes_event(WITNESS); }
GV_CONTRACT(C07, remove_no_event) { removes_event(NONE); }
GV_CONTRACT(C07, remove_other_event) { removes_event(ANY); }
GV_CONTRACT(C07, stop) { disp& d = setup(7, STOP, true); pools_ = 0; const bool r = d.stop(); later(); rm(cleared_ & !after_, "stop removes every handler"); rm(pools_ == 1 & tpstop_ & r == tpret_, "stop then stops the workers"); }
GV_CONTRACT(C06, start) { disp& d = setup(6, START, true); pools_ = 0; const unsigned n = (unsigned)gv_any_range("threads", 0, 1000); const bool r = d.start(n); em(pools_ == 1 & tpn_ == n & r == tpret_, "start starts the workers asked for"); }
// C29: the accesses of each operation, with the mutexes held, are recorded; every pair is then examined
GV_CONTRACT(C29, event_emit) { emits<int>(true, 29, 7); }
GV_CONTRACT(C29, event_emit_text) { emits<std::string>(false, 29, std::string("a text that is longer")); }
GV_CONTRACT(C29, event_add) { adds<int>(29, true, 1); }
GV_CONTRACT(C29, event_remove) { removes(WITNESS, 29); }
GV_CONTRACT(C29, event_remove_none) { removes(NONE, 29); }
GV_CONTRACT(C29, event_remove_event) { removes_event(ANY, 29); }
GV_CONTRACT(C29, event_stop) { disp& d = setup(29, STOP, true); d.stop(); later(); }
GV_CONTRACT(C29, event_start) { disp& d = setup(29, START, true); d.start(2); later(); }
#endif
