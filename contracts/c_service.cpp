#include <gv/gv.hpp>
#include <memory>
#ifndef GV_NATIVE
#include "stubs/umapw.hpp"
size_t std::_Hash_bytes(const void* p, size_t n, size_t h) { for (size_t k = 0; k < n; ++k) h = h * 131 + static_cast<const unsigned char*>(p)[k]; return h; } // injective on the types used here
#endif
#include <service_locator.cpp>
using loc = tc::sdk::service_locator;
// interfaces: plain, second base of a multiple inheritance, virtual base, one derived from another
struct IA { virtual ~IA() = default; virtual int a() const = 0; };
struct IB { virtual ~IB() = default; virtual int b() const = 0; long pad = 11; };
struct IC { virtual ~IC() = default; virtual int c() const = 0; };
struct ID : IA { virtual int d() const = 0; };
struct SA : IA { int v; SA(int x) : v(x) {} int a() const override { return v; } };
struct SAB : IA, IB { int v; SAB(int x) : v(x) {} int a() const override { return v + 1000; } int b() const override { return v; } };
struct SBC : IB, IC { int v; SBC(int x) : v(x) {} int b() const override { return v + 2000; } int c() const override { return v; } };
struct SC : virtual IC { int v; int w; SC(int x) : v(x), w(x) {} int c() const override { return v + 3000; } };
struct SD : IB, ID { int v; SD(int x) : v(x) {} int b() const override { return v + 4000; } int a() const override { return v + 5000; } int d() const override { return v + 6000; } };
#ifdef GV_NATIVE
struct Model { std::shared_ptr<void> keep; bool reg; const void* ptr; int val; bool self; };
GV_CONTRACT(C26, history)
{
    loc& l = loc::instance(); l.unregister<IA>(); l.unregister<IB>(); l.unregister<IC>(); l.unregister<ID>();
    Model m[4] = {};
    auto check = [&] {
        gv::ensures(l.is_registered<IA>() == m[0].reg && l.is_registered<IB>() == m[1].reg && l.is_registered<IC>() == m[2].reg && l.is_registered<ID>() == m[3].reg, "is_registered tells exactly the registered interfaces");
        auto a = l.get<IA>(); auto b = l.get<IB>(); auto c = l.get<IC>(); auto d = l.get<ID>();
        gv::ensures(!!a == m[0].reg && !!b == m[1].reg && !!c == m[2].reg && !!d == m[3].reg, "get returns an instance exactly when one is registered for that interface");
        gv::ensures((!a || a->a() == m[0].val) && (!b || (b->b() == m[1].val && b->pad == 11)) && (!c || c->c() == m[2].val) && (!d || d->d() == m[3].val), "get returns a usable pointer to the instance registered for that interface");
        gv::ensures((!a || m[0].self || a.get() == m[0].ptr) && (!b || m[1].self || b.get() == m[1].ptr) && (!c || m[2].self || c.get() == m[2].ptr) && (!d || m[3].self || d.get() == m[3].ptr), "get returns exactly the instance registered");
    };
    const int steps = gv_any_range("steps", 1, 8);
    for (int k = 0; k < steps; ++k)
    {
        const int i = gv_any_range("interface", 0, 3), op = gv_any_range("op", 0, 4), kind = gv_any_range("kind", 0, 2), v = 10 * (k + 1); bool r = true; int val = 0; const void* p = nullptr;
        if (op == 4)
        {
            r = i == 0 ? l.unregister<IA>() : i == 1 ? l.unregister<IB>() : i == 2 ? l.unregister<IC>() : l.unregister<ID>();
            gv::ensures(r == m[i].reg, "unregister returns true exactly when an instance is registered"); m[i] = {};
        }
        else if (op >= 2) // register_service
        {
            if (i == 0) { r = kind == 0 ? l.register_service<IA, SA>(v) : kind == 1 ? l.register_service<IA, SAB>(v) : l.register_service<IA, SD>(v); val = kind == 0 ? v : kind == 1 ? v + 1000 : v + 5000; }
            else if (i == 1) { r = kind == 0 ? l.register_service<IB, SAB>(v) : kind == 1 ? l.register_service<IB, SBC>(v) : l.register_service<IB, SD>(v); val = kind == 0 ? v : kind == 1 ? v + 2000 : v + 4000; }
            else if (i == 2) { r = kind == 0 ? l.register_service<IC, SC>(v) : l.register_service<IC, SBC>(v); val = kind == 0 ? v + 3000 : v; }
            else { r = l.register_service<ID, SD>(v); val = v + 6000; }
            gv::ensures(r == !m[i].reg, "registering succeeds exactly when no instance is registered for the interface"); if (r) m[i] = {nullptr, true, nullptr, val, true};
        }
        else // register_instance
        {
            std::shared_ptr<void> keep;
            if (i == 0) { std::shared_ptr<IA> s; if (kind == 0) s = std::make_shared<SA>(v); else if (kind == 1) s = std::make_shared<SAB>(v); else s = std::make_shared<SD>(v); val = s->a(); p = s.get(); r = l.register_instance(s); keep = s; }
            else if (i == 1) { std::shared_ptr<IB> s; if (kind == 0) s = std::make_shared<SAB>(v); else if (kind == 1) s = std::make_shared<SBC>(v); else s = std::make_shared<SD>(v); val = s->b(); p = s.get(); r = l.register_instance(s); keep = s; }
            else if (i == 2) { std::shared_ptr<IC> s; if (kind == 0) s = std::make_shared<SC>(v); else s = std::make_shared<SBC>(v); val = s->c(); p = s.get(); r = l.register_instance<IC>(s); keep = s; }
            else { std::shared_ptr<ID> s = std::make_shared<SD>(v); val = s->d(); p = s.get(); r = l.register_instance(s); keep = s; }
            gv::ensures(r == !m[i].reg, "registering succeeds exactly when no instance is registered for the interface"); if (r) m[i] = {keep, true, p, val, false};
        }
        check();
    }
    l.unregister<IA>(); l.unregister<IB>(); l.unregister<IC>(); l.unregister<ID>();
    gv::ensures(!l.get<IA>() && !l.get<IB>() && !l.get<IC>() && !l.get<ID>(), "unregister removes the instance");
}
GV_CONTRACT(C26, lifetime)
{
    loc& l = loc::instance(); l.unregister<IA>(); l.unregister<IC>(); const bool service = gv::any<bool>("service");
    static int alive; alive = 0; struct T : IA { T() { ++alive; } ~T() { --alive; } int a() const override { return 5; } };
    std::weak_ptr<IA> w; { if (service) l.register_service<IA, T>(); else l.register_instance<IA>(std::make_shared<T>()); w = l.get<IA>(); gv::ensures(!w.expired() && alive == 1, "a registered instance stays alive"); }
    auto held = l.get<IA>(); gv::ensures(!l.register_service<IA, SA>(3) && l.get<IA>() == held && held->a() == 5, "a failed registration changes nothing");
    l.unregister<IC>(); gv::ensures(l.get<IA>() == held, "no operation on another interface affects this one");
    l.unregister<IA>(); gv::ensures(alive == 1 && held->a() == 5, "an instance got before stays usable"); held.reset(); gv::ensures(w.expired() && alive == 0, "unregister releases the instance");
}
#else
// The map of services is known through the entry of one interface, the witness W; the operations on W and on another interface U are verified. What they
// do to W's entry depends on that entry alone, so this covers every history of operations on any set of interfaces.
extern "C" bool gv_split(bool);
static int alive_;
struct Tok { Tok() { ++alive_; } ~Tok() { --alive_; } };
template <typename S> struct Counted : S, Tok { using S::S; };
static int use(const IA& x) { return x.a(); } static int use(const IB& x) { return x.b(); } static int use(const IC& x) { return x.c(); } static int use(const ID& x) { return x.d(); }
static int val(const char* w = "value") { return (int)gv_any_range(w, -1000000, 1000000); }
template <typename W> static loc& locator() { gv::witness_key = 0; loc& l = loc::instance(); gv::ensures(&l == &loc::instance(), "there is one locator"); gv::witness_key = l.get_id<W>(); return l; }
struct Entry { bool on; void* p; long n; bool operator==(const Entry&) const = default; };
static Entry entry(loc& l) { auto& w = l._services.w; return {w.on, w.on ? w.get().second.get() : nullptr, w.on ? w.get().second.use_count() : 0}; }
// operations on another interface
template <typename U, typename S> static void others(loc& l)
{
    const Entry e = entry(l);
    l.register_service<U, S>(val("foreign")); gv::ensures(entry(l) == e, "registering a service of another interface changes nothing here"); { auto u = l.get<U>(); gv::ensures(u || !l.is_registered<U>(), "get returns an instance exactly when one is registered for that interface"); } gv::ensures(entry(l) == e, "no operation on another interface affects this one");
    l.unregister<U>(); gv::ensures(entry(l) == e, "unregistering another interface changes nothing here"); l.unregister<U>();
    l.register_instance<U>(std::make_shared<S>(val("foreign"))); gv::ensures(entry(l) == e, "registering an instance of another interface changes nothing here"); l.is_registered<U>(); gv::ensures(entry(l) == e, "no operation on another interface affects this one");
}
template <typename W, typename S, typename S2, typename U, typename SU> static void witness()
{
    loc& l = locator<W>(); const int v = val(); alive_ = 0; using C = Counted<S>; const bool service = gv_split(gv::any<bool>("register_service"));
    // not registered
    gv::ensures(!l.is_registered<W>() && !l.get<W>(), "nothing is registered at first"); gv::ensures(!l.unregister<W>() && !entry(l).on, "unregister of an interface that is not registered returns false and changes nothing"); 
    if (gv_split(gv::any<bool>("others first"))) { others<U, SU>(l); gv::ensures(!l.is_registered<W>() && !l.get<W>() && !l.unregister<W>(), "no operation on another interface affects this one"); }
    // registered
    const C model(v); const int want = use(static_cast<const W&>(model)); std::shared_ptr<C> mine;
    if (service) gv::ensures(l.register_service<W, C>(v), "registering succeeds when nothing is registered for the interface"); else { mine = std::make_shared<C>(v); gv::ensures(l.register_instance<W>(mine), "registering succeeds when nothing is registered for the interface"); }
    gv::ensures(entry(l).on, "a registered instance is kept for its interface"); gv::ensures(alive_ == 2, "one instance is created and kept alive"); if (!service) gv::ensures(mine.use_count() == 2, "the locator shares the ownership of the instance"); 
    const Entry e = entry(l); gv::ensures(l.is_registered<W>() && entry(l) == e, "is_registered tells that an instance is registered, and changes nothing");
    { auto g = l.get<W>(); gv::ensures(!!g && use(*g) == want, "get returns a usable pointer to the instance registered for that interface"); if (!service) gv::ensures(g.get() == static_cast<W*>(mine.get()), "get returns exactly the instance registered"); auto h = l.get<W>(); gv::ensures(g == h && h.use_count() == e.n + 2, "get returns the same instance every time and shares its ownership"); }
    gv::ensures(entry(l) == e, "get changes nothing");
    gv::ensures(!l.register_service<W, S2>(val("second")) && entry(l) == e, "registering fails when an instance is registered, and changes nothing"); gv::ensures(!l.register_instance<W>(std::make_shared<S2>(val("second"))) && entry(l) == e, "registering fails when an instance is registered, and changes nothing");
    others<U, SU>(l); { auto g = l.get<W>(); gv::ensures(!!g && use(*g) == want && alive_ == 2, "no operation on another interface affects this one"); }
    // removed
    std::shared_ptr<W> held; const bool keep = gv_split(gv::any<bool>("kept")); if (keep) held = l.get<W>();
    gv::ensures(l.unregister<W>(), "unregister returns true when an instance is registered"); gv::ensures(!entry(l).on && !l.is_registered<W>() && !l.get<W>(), "unregister removes the instance");
    if (keep) { gv::ensures(alive_ == 2 && use(*held) == want, "an instance got before stays usable"); held.reset(); } if (!service) { gv::ensures(mine.use_count() == 1, "unregister releases the instance"); mine.reset(); } gv::ensures(alive_ == 1, "unregister releases the instance");
    gv::ensures(!l.unregister<W>(), "unregister of an interface that is not registered returns false and changes nothing"); gv::ensures(l.register_service<W, S2>(val("again")) && l.is_registered<W>() && l.get<W>(), "registering succeeds when nothing is registered for the interface");
}
GV_CONTRACT(C26, plain) { witness<IA, SA, SAB, IB, SAB>(); }
GV_CONTRACT(C26, first_base) { witness<IA, SAB, SA, IC, SC>(); }
GV_CONTRACT(C26, second_base) { witness<IB, SAB, SBC, IA, SA>(); }
GV_CONTRACT(C26, later_base) { witness<IC, SBC, SC, IB, SBC>(); }
GV_CONTRACT(C26, virtual_base) { witness<IC, SC, SBC, IA, SAB>(); }
GV_CONTRACT(C26, derived_interface) { witness<ID, SD, SD, IA, SA>(); }
GV_CONTRACT(C26, base_interface) { witness<IA, SD, SA, ID, SD>(); }
#endif
