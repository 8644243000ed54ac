// What std::promise/future/packaged_task/call_once need from libstdc++.so (IR build only); the rest of them is the real header code.
#pragma once
#include <future>
#include <system_error>
#include <string>
void gv_on_future(unsigned* status); // a thread blocks until the shared state is ready
#ifdef GV_READY
void gv_on_ready(); // a shared state is made ready
#else
static void gv_on_ready() {}
#endif
namespace std { __thread void* __once_callable; __thread void (*__once_call)(); }
std::__future_base::_Result_base::_Result_base() = default; std::__future_base::_Result_base::~_Result_base() = default;
namespace gv { struct FutureCategory : std::error_category { const char* name() const noexcept override { return "future"; } std::string message(int) const override { return std::string("e"); } }; }
const std::error_category& std::future_category() noexcept { static unsigned char mem[sizeof(gv::FutureCategory)]; return *new (mem) gv::FutureCategory; }
namespace std { _V2::error_category::~error_category() = default; error_condition _V2::error_category::default_error_condition(int) const noexcept { return {}; } bool _V2::error_category::equivalent(int, const error_condition&) const noexcept { return false; } bool _V2::error_category::equivalent(const error_code&, int) const noexcept { return false; } }
std::future_error::~future_error() noexcept {} const char* std::future_error::what() const noexcept { return "future"; }
extern "C" void __once_proxy() { std::__once_call(); }
extern "C" int pthread_once(pthread_once_t* o, void (*f)(void)) { if (*o == 0) { *o = 2; f(); gv_on_ready(); } return 0; }
bool std::__atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* a, unsigned, bool timed, std::chrono::seconds, std::chrono::nanoseconds) { if (timed && gv::any<bool>("timed out")) return false; gv_on_future(a); return true; }
bool std::__atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* a, unsigned, bool timed, std::chrono::seconds, std::chrono::nanoseconds) { if (timed && gv::any<bool>("timed out")) return false; gv_on_future(a); return true; }
void std::__atomic_futex_unsigned_base::_M_futex_notify_all(unsigned*) {}
