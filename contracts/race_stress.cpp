// Confirms a violation of C29 on the real code: every operation of one object is called by several threads for a while, under ThreadSanitizer.
// usage: race_stress <queue|pool|timer|observable|event|sched> <seconds>
#include <teiacare/sdk/blocking_queue.hpp>
#include <teiacare/sdk/observable.hpp>
#include <event_dispatcher.cpp>
#include <high_precision_timer.cpp>
#include <task_scheduler.cpp>
#include <thread_pool.cpp>
#include <chrono>
#include <cstdlib>
#include <cstring>
#include <string>
#include <thread>
#include <vector>
using namespace std::chrono_literals; using namespace tc::sdk;
static std::atomic<unsigned long> sink; template <typename T> static void use(const T& v) { sink.fetch_add(v, std::memory_order_relaxed); } // what is read is used
static std::atomic<bool> over_{false}; static double secs_;
template <typename... F> static void all(int times, F... f)
{
    std::vector<std::thread> t; const auto end = std::chrono::steady_clock::now() + std::chrono::duration<double>(secs_);
    auto go = [&](auto& g) { t.emplace_back([&g, end] { unsigned k = 0; while (std::chrono::steady_clock::now() < end) { g(k++); std::this_thread::sleep_for(20us); } }); };
    for (int k = 0; k < times; ++k) (go(f), ...);
    for (auto& x : t) x.join();
}
int main(int argc, char** argv)
{
    const std::string o = argv[1]; secs_ = atof(argv[2]); const std::string text(40, 'x');
    if (o == "queue")
    {
        blocking_queue<std::string> q(2); std::thread drain([&] { while (!over_) { q.try_pop(); std::this_thread::sleep_for(10us); } while (q.try_pop()) {} }), fill([&] { while (!over_) { q.try_push(std::string("f")); std::this_thread::sleep_for(10us); } });
        all(2, [&](unsigned) { q.try_push(text); }, [&](unsigned) { std::string s = text; q.try_push(std::move(s)); }, [&](unsigned) { q.try_pop(); }, [&](unsigned) { use(q.size()); use(q.capacity()); }, [&](unsigned) { q.push(text); }, [&](unsigned) { q.push(std::string(text)); }, [&](unsigned) { q.pop(); });
        over_ = true; drain.join(); fill.join();
    }
    if (o == "pool")
    {
        thread_pool p; std::atomic<int> n{0}; p.start(3);
        all(2, [&](unsigned) { p.run([&, text] { n += text.size(); }); }, [&](unsigned) { use(p.is_running()); use(p.threads_count()); }, [&, first = true](unsigned k) mutable { static std::atomic<int> one{0}; static thread_local const bool me = one++ == 0; if (me) { if (k & 1) p.start(1 + k % 3); else p.stop(); } });
    }
    if (o == "timer")
    {
        high_precision_timer t; std::atomic<int> n{0}; t.set_callback([&n, text] { n += text.size(); }); t.start(10us);
        all(1, [&](unsigned) { use(t.invoked_callback_count()); use(t.missed_callback_count()); }, [&](unsigned k) { if (k % 8 == 7) t.stop(); else if (k % 8 == 3) t.start(10us); else t.set_callback([&n, text] { n += text.size(); }); });
        t.stop();
    }
    if (o == "observable")
    {
        std::atomic<int> n{0}; observable<std::string> v(text, [&](std::string) { ++n; });
        all(2, [&](unsigned k) { const std::string s = text + std::to_string(k); v = s; }, [&](unsigned k) { v = text + std::to_string(k % 3); }, [&](unsigned) { const std::string s = v.value(); use(s.size()); }, [&](unsigned) { const std::string s = v; const auto& c = v; const std::string r = c; use(s.size() + r.size()); }, [&](unsigned k) { v.callback_enabled(k & 1); }, [&](unsigned) { use(v.callback_enabled()); });
    }
    if (o == "event")
    {
        event_dispatcher d; std::atomic<int> n{0}; d.start(2);
        all(2, [&](unsigned k) { d.emit("e" + std::to_string(k % 3), text); }, [&](unsigned k) { const auto i = d.add_handler<std::string>("e" + std::to_string(k % 3), [&](std::string) { ++n; }); if (k & 1) d.remove_handler(i); }, [&](unsigned k) { if (k % 16 == 0) d.remove_event("e0"); if (k % 16 == 8) d.remove_event("none"); d.remove_handler(k); },
            [&](unsigned k) { static std::atomic<int> one{0}; static thread_local const bool me = one++ == 0; if (me && k % 16 == 0) { d.stop(); d.start(2); } });
        d.stop();
    }
    if (o == "sched")
    {
        task_scheduler s; std::atomic<int> n{0}; s.start(2); auto id = [](unsigned k) { return "t" + std::to_string(k % 4); };
        all(1, [&](unsigned k) { s.at(std::chrono::steady_clock::now() + 50us, [&, text] { n += text.size(); }); s.in(30us, [&] { ++n; }); }, [&](unsigned k) { s.every(id(k), 1ms, [&] { ++n; }); s.in(id(k + 1), 40us, [&] { ++n; }); }, [&](unsigned k) { s.every(id(k), clock::duration(1ms), clock::duration(1ms), [&](int) { ++n; }, 1); s.at(id(k), std::chrono::steady_clock::now(), [&](int) { ++n; }, 1); },
            [&](unsigned k) { s.remove_task(id(k)); }, [&](unsigned k) { s.set_enabled(id(k), k & 1); use(s.is_enabled(id(k))); use(s.is_scheduled(id(k))); }, [&](unsigned k) { if (const auto i = s.get_interval(id(k))) use(i->count()); s.update_interval(id(k), 500us); }, [&](unsigned) { use(s.tasks_size()); }, [&](unsigned k) { if (k % 16 == 15) { s.stop(); s.start(2); } });
        s.stop();
    }
    return 0;
}
