#include <gv/gv.hpp>
#include <gv/sched.hpp>
#include <signal_handler.cpp>
#include <cstring>
#include <csignal>
#include <string>
#include <thread>
#include <vector>
#ifdef GV_NATIVE
GV_CONTRACT(C28, sched_delivery)
{
    const int steps = gv_any_range("steps", 1, 5), waiters = gv_any_range("waiters", 1, 2); const bool install = gv::any<bool>("install"), cb = gv::any<bool>("callback");
    for (int s : {SIGINT, SIGTERM, SIGABRT}) std::signal(s, SIG_DFL);
    static std::vector<std::pair<std::string, int>> calls; calls.clear();
    gv::schedule("wait_for_quit returns after a signal or quit", [&] {
        auto f = [](const char* n, int s) { calls.push_back({n, s}); };
        if (install) { if (cb) tc::sdk::install_signal_handlers(f); else tc::sdk::install_signal_handlers(); } else { std::signal(SIGINT, SIG_DFL); tc::sdk::install_signal_handlers(); }
        const bool has = install && cb; size_t want = 0;
        for (int k = 0; k < steps; ++k)
        {
            int back = 0; std::thread w; const bool before = gv::any<bool>("wait first"); 
            if (before) { w = std::thread([&] { tc::sdk::wait_for_quit(); ++back; }); gv_settle(); gv::ensures(back == 0, "wait_for_quit does not return before an event"); }
            const int op = gv_any_range("event", 0, 4); const int sig = op == 0 ? SIGINT : op == 1 ? SIGTERM : op == 2 ? SIGABRT : op == 3 ? 0 : 42; const char* msg = op == 0 ? "SIGINT" : op == 1 ? "SIGTERM" : op == 2 ? "SIGABRT" : op == 3 ? "bye" : "other";
            if (op <= 2) std::raise(sig); else if (op == 3) tc::sdk::quit(msg); else tc::sdk::quit(msg, sig);
            if (has) { ++want; gv::ensures(calls.size() == want && calls.back().first == msg && calls.back().second == sig, "the callback is called exactly once with the signal's name and number"); } else gv::ensures(calls.empty(), "no callback is called when none is installed");
            if (before) w.join(); else { tc::sdk::wait_for_quit(); }
            if (before) gv::ensures(back == 1, "one wait_for_quit returns after an event");
        }
        // exactly one wait_for_quit per event
        int back = 0; std::vector<std::thread> th; for (int k = 0; k < waiters; ++k) th.emplace_back([&] { tc::sdk::wait_for_quit(); ++back; });
        gv_settle(); gv::ensures(back == 0, "wait_for_quit does not return before an event");
        for (int k = 1; k <= waiters; ++k) { if (k & 1) std::raise(SIGTERM); else tc::sdk::quit("q", 1); gv_settle(); gv::ensures(back == k, "an event lets exactly one wait_for_quit return"); }
        for (auto& t : th) t.join();
    });
    for (int s : {SIGINT, SIGTERM, SIGABRT}) std::signal(s, SIG_DFL);
}
#endif
