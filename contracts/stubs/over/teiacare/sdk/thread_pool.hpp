// The contract of tc::sdk::thread_pool (proved for its real code by C03, C04 and C05) as its callers see it (IR build of those callers only):
// start/stop switch between stopped and running, run hands a task over, to be invoked exactly once by a worker. The contract unit gives the gv_pool_* hooks.
#pragma once
#include <future>
#include <functional>
#include <teiacare/sdk/non_copyable.hpp>
#include <teiacare/sdk/non_moveable.hpp>
#include <teiacare/sdk/task.hpp>
#include <thread>
#include <type_traits>
namespace gv { struct Job { virtual ~Job() = default; virtual void invoke() = 0; }; template <typename F> struct JobOf : Job { F f; JobOf(F&& x) : f(std::move(x)) {} JobOf(const F& x) : f(x) {} void invoke() override { f(); } }; }
bool gv_pool_start(unsigned n); bool gv_pool_stop(); bool gv_pool_running(); uint64_t gv_pool_threads();
void gv_pool_run(gv::Job* j); // takes the job over
namespace tc::sdk
{
class thread_pool : private non_copyable, private non_moveable
{
public:
    explicit thread_pool() {}
    ~thread_pool() { gv_pool_stop(); }
    bool start(const unsigned int n = std::thread::hardware_concurrency()) { return gv_pool_start(n); }
    bool stop() { return gv_pool_stop(); }
    size_t threads_count() const { return gv_pool_threads(); }
    bool is_running() const { return gv_pool_running(); }
    template <typename Callable, typename... Args>
    auto run(Callable&& f, Args&&... args) -> std::future<std::invoke_result_t<Callable, Args...>>
    {
        if constexpr (sizeof...(Args) == 0) gv_pool_run(new gv::JobOf<std::decay_t<Callable>>(std::forward<Callable>(f)));
        else { auto g = [t = std::forward<Callable>(f), p = std::make_tuple(std::forward<Args>(args)...)]() mutable { std::apply(t, p); }; gv_pool_run(new gv::JobOf<decltype(g)>(std::move(g))); }
        return {};
    }
};
}
