From 7def5d979f536eeaccba668dcbbf1be2778b176e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:40 +0000
Subject: [PATCH 01/18] fix: rectangle::translated compiles when instantiated
 (translate mutates the local, which was const)

---
 sdk/include/teiacare/sdk/geometry/rectangle.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/include/teiacare/sdk/geometry/rectangle.hpp b/sdk/include/teiacare/sdk/geometry/rectangle.hpp
index 8ae8696..2a7b3c0 100644
--- a/sdk/include/teiacare/sdk/geometry/rectangle.hpp
+++ b/sdk/include/teiacare/sdk/geometry/rectangle.hpp
@@ -352,7 +352,7 @@ public:
      */
     tc::sdk::rectangle<T> translated(T delta_x, T delta_y) const noexcept
     {
-        const auto translated_position = tc::sdk::point<T>(_position);
+        auto translated_position = tc::sdk::point<T>(_position);
         translated_position.add_delta(delta_x, delta_y);
         return tc::sdk::rectangle<T>(translated_position, _width, _height);
     }
-- 
2.43.0


From cf4d2eb481713d4d142baf484d199a4aa6501fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:35 +0000
Subject: [PATCH 02/18] fix: timedelta division by zero throws
 std::domain_error as documented

---
 sdk/include/teiacare/sdk/datetime/timedelta.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sdk/include/teiacare/sdk/datetime/timedelta.hpp b/sdk/include/teiacare/sdk/datetime/timedelta.hpp
index 85a6446..7668184 100644
--- a/sdk/include/teiacare/sdk/datetime/timedelta.hpp
+++ b/sdk/include/teiacare/sdk/datetime/timedelta.hpp
@@ -16,6 +16,7 @@
 
 #include <chrono>
 #include <ostream>
+#include <stdexcept>
 
 namespace tc::sdk
 {
@@ -289,6 +290,9 @@ public:
      */
     constexpr inline tc::sdk::timedelta operator/(int64_t divider) const noexcept(false)
     {
+        if (divider == 0)
+            throw std::domain_error("timedelta division by zero");
+
         return tc::sdk::timedelta{_duration / divider};
     }
 
-- 
2.43.0


From ad6f5d577288e4466c304c87e63f41cf45dbfc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:35 +0000
Subject: [PATCH 03/18] fix: date::from_string keeps dates outside the
 nanosecond time_point range

---
 sdk/src/datetime/date.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sdk/src/datetime/date.cpp b/sdk/src/datetime/date.cpp
index 83eb8d0..bb36cab 100644
--- a/sdk/src/datetime/date.cpp
+++ b/sdk/src/datetime/date.cpp
@@ -36,8 +36,7 @@ tc::sdk::date date::from_string(const std::string& str, const std::string& forma
     if (ss.fail())
         throw std::runtime_error("Failed to parse " + str);
 
-    const std::chrono::system_clock::time_point tp = parsed_date;
-    return tc::sdk::date(tp);
+    return tc::sdk::date(std::chrono::year_month_day{parsed_date});
 }
 
 tc::sdk::date date::today() noexcept
-- 
2.43.0


From c6f25481ef765179c0ef6fb35610ae3762997978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:24 +0000
Subject: [PATCH 04/18] fix: event_dispatcher keys events by name and ordered
 argument types

The key concatenated the name with the sum of the type hashes, so permuted
argument lists, and names ending with the digits of a hash, shared handlers.
---
 sdk/include/teiacare/sdk/event_dispatcher.hpp | 20 ++++++++-----------
 sdk/src/event_dispatcher.cpp                  |  2 +-
 2 files changed, 9 insertions(+), 13 deletions(-)

diff --git a/sdk/include/teiacare/sdk/event_dispatcher.hpp b/sdk/include/teiacare/sdk/event_dispatcher.hpp
index 808be76..8afa1ec 100644
--- a/sdk/include/teiacare/sdk/event_dispatcher.hpp
+++ b/sdk/include/teiacare/sdk/event_dispatcher.hpp
@@ -20,10 +20,12 @@
 #include <teiacare/sdk/thread_pool.hpp>
 
 #include <functional>
+#include <map>
 #include <memory>
 #include <mutex>
 #include <string>
-#include <unordered_map>
+#include <typeindex>
+#include <utility>
 #include <vector>
 
 namespace tc::sdk
@@ -177,23 +179,17 @@ public:
     auto stop() -> bool;
 
 private:
-    std::unordered_map<std::string, std::vector<std::shared_ptr<base_handler_t>>> _handlers;
+    // An event is identified by its name and by the (ordered) list of its arguments types.
+    using event_key_t = std::pair<std::string, std::type_index>;
+    std::map<event_key_t, std::vector<std::shared_ptr<base_handler_t>>> _handlers;
     std::mutex _handlers_mutex;
     tc::sdk::thread_pool _tp;
     static unsigned long handler_id;
 
     template <typename... Args>
-    constexpr auto get_event_handler_id(std::string&& event_name) const
+    auto get_event_handler_id(std::string&& event_name) const -> event_key_t
     {
-        if constexpr (sizeof...(Args) == 0)
-        {
-            return std::move(event_name);
-        }
-        else
-        {
-            auto args_hash = std::to_string((typeid(std::decay_t<Args>).hash_code() + ...));
-            return std::move(event_name + args_hash);
-        }
+        return {std::move(event_name), std::type_index(typeid(void(std::decay_t<Args>...)))};
     }
 };
 
diff --git a/sdk/src/event_dispatcher.cpp b/sdk/src/event_dispatcher.cpp
index d66f54d..42467d9 100644
--- a/sdk/src/event_dispatcher.cpp
+++ b/sdk/src/event_dispatcher.cpp
@@ -50,7 +50,7 @@ auto event_dispatcher::remove_event(std::string event_name) -> bool
 {
     std::unique_lock handlers_lock(_handlers_mutex);
 
-    if (std::erase_if(_handlers, [event_name](auto&& handler_iterator) { return handler_iterator.first.starts_with(event_name); }))
+    if (std::erase_if(_handlers, [event_name](auto&& handler_iterator) { return handler_iterator.first.first.starts_with(event_name); }))
         return true;
 
     return false;
-- 
2.43.0


From 15fd45f8c15d20fe8f00cb2214706c5f6f0616fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:24 +0000
Subject: [PATCH 05/18] fix: event_dispatcher::remove_event removes only the
 named event

It removed every event whose name started with the given one.
---
 sdk/src/event_dispatcher.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/src/event_dispatcher.cpp b/sdk/src/event_dispatcher.cpp
index 42467d9..04da185 100644
--- a/sdk/src/event_dispatcher.cpp
+++ b/sdk/src/event_dispatcher.cpp
@@ -50,7 +50,7 @@ auto event_dispatcher::remove_event(std::string event_name) -> bool
 {
     std::unique_lock handlers_lock(_handlers_mutex);
 
-    if (std::erase_if(_handlers, [event_name](auto&& handler_iterator) { return handler_iterator.first.first.starts_with(event_name); }))
+    if (std::erase_if(_handlers, [event_name](auto&& handler_iterator) { return handler_iterator.first.first == event_name; }))
         return true;
 
     return false;
-- 
2.43.0


From 74eedf8e4b99077b9cb8bf79e2f330b2fd05e201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:24 +0000
Subject: [PATCH 06/18] fix: event_dispatcher numbers its handlers per instance

The counter was shared by all dispatchers, guarded by per-instance mutexes
and reset by every destructor, so live handlers could get equal ids.
---
 sdk/include/teiacare/sdk/event_dispatcher.hpp | 6 +++---
 sdk/src/event_dispatcher.cpp                  | 3 ---
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/sdk/include/teiacare/sdk/event_dispatcher.hpp b/sdk/include/teiacare/sdk/event_dispatcher.hpp
index 8afa1ec..69bb763 100644
--- a/sdk/include/teiacare/sdk/event_dispatcher.hpp
+++ b/sdk/include/teiacare/sdk/event_dispatcher.hpp
@@ -115,8 +115,8 @@ public:
         const auto event_handler_id = get_event_handler_id<Args...>(std::move(event_name));
 
         std::unique_lock handlers_lock(_handlers_mutex);
-        _handlers[event_handler_id].emplace_back(std::make_unique<handler_t<Args...>>(++handler_id, std::move(event_handler)));
-        return handler_id;
+        _handlers[event_handler_id].emplace_back(std::make_unique<handler_t<Args...>>(++_last_handler_id, std::move(event_handler)));
+        return _last_handler_id;
     }
 
     /*!
@@ -184,7 +184,7 @@ private:
     std::map<event_key_t, std::vector<std::shared_ptr<base_handler_t>>> _handlers;
     std::mutex _handlers_mutex;
     tc::sdk::thread_pool _tp;
-    static unsigned long handler_id;
+    unsigned long _last_handler_id = 0;
 
     template <typename... Args>
     auto get_event_handler_id(std::string&& event_name) const -> event_key_t
diff --git a/sdk/src/event_dispatcher.cpp b/sdk/src/event_dispatcher.cpp
index 04da185..2092717 100644
--- a/sdk/src/event_dispatcher.cpp
+++ b/sdk/src/event_dispatcher.cpp
@@ -16,8 +16,6 @@
 
 namespace tc::sdk
 {
-unsigned long event_dispatcher::handler_id = 0;
-
 event_dispatcher::event_dispatcher() noexcept
 {
 }
@@ -25,7 +23,6 @@ event_dispatcher::event_dispatcher() noexcept
 event_dispatcher::~event_dispatcher() noexcept
 {
     stop();
-    handler_id = 0;
 }
 
 auto event_dispatcher::remove_handler(unsigned long remove_handler_id) -> bool
-- 
2.43.0


From b76636756d0be176a5443af4d2a1818f73862e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:28 +0000
Subject: [PATCH 07/18] fix: task_scheduler::stop notifies after its critical
 section

The scheduler thread could test is_running() before stop() and start to
wait after the notification: stop() then never returned.
---
 sdk/src/task_scheduler.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdk/src/task_scheduler.cpp b/sdk/src/task_scheduler.cpp
index 1331465..733f3e2 100644
--- a/sdk/src/task_scheduler.cpp
+++ b/sdk/src/task_scheduler.cpp
@@ -74,13 +74,13 @@ bool task_scheduler::stop()
     if (!_tp.stop())
         return false;
 
-    _update_tasks_cv.notify_all();
-
     {
         std::scoped_lock lock(_update_tasks_mtx);
         _tasks.clear();
     }
 
+    _update_tasks_cv.notify_all();
+
     if (_scheduler_thread.joinable())
         _scheduler_thread.join();
 
-- 
2.43.0


From b6338b91417dea8ee49b61156ea3ef4fb70ba2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:23 +0000
Subject: [PATCH 08/18] fix: task_scheduler refuses tasks added after stop
 cleared the pending ones

add_task tested is_running() outside the lock, so a task could be stored
after stop() had cleared them and stayed pending on a stopped scheduler.
---
 sdk/src/task_scheduler.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sdk/src/task_scheduler.cpp b/sdk/src/task_scheduler.cpp
index 733f3e2..b5fc2a6 100644
--- a/sdk/src/task_scheduler.cpp
+++ b/sdk/src/task_scheduler.cpp
@@ -169,12 +169,12 @@ bool task_scheduler::update_interval(const std::string& task_id, interval_t inte
 
 bool task_scheduler::add_task(tc::sdk::clock::time_point&& timepoint, schedulable_task&& st)
 {
-    if (!_tp.is_running())
-        return false;
-
     {
         std::scoped_lock lock(_update_tasks_mtx);
 
+        if (!_tp.is_running())
+            return false;
+
         if (already_exists(st.hash()))
             return false;
 
-- 
2.43.0


From 604a278d68cf68ee7297fbe039e26aeca0252b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:32 +0000
Subject: [PATCH 09/18] fix: task_scheduler stops its scheduler thread before
 its workers

The pool was stopped first, so the scheduler thread could still hand it due
tasks, which stayed queued and ran when the scheduler was started again.
---
 sdk/include/teiacare/sdk/task_scheduler.hpp |  2 ++
 sdk/src/task_scheduler.cpp                  | 17 +++++++++++------
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/sdk/include/teiacare/sdk/task_scheduler.hpp b/sdk/include/teiacare/sdk/task_scheduler.hpp
index f067f12..7533c8a 100644
--- a/sdk/include/teiacare/sdk/task_scheduler.hpp
+++ b/sdk/include/teiacare/sdk/task_scheduler.hpp
@@ -20,6 +20,7 @@
 #include <teiacare/sdk/task.hpp>
 #include <teiacare/sdk/thread_pool.hpp>
 
+#include <atomic>
 #include <chrono>
 #include <condition_variable>
 #include <future>
@@ -425,6 +426,7 @@ public:
 
 private:
     tc::sdk::thread_pool _tp;
+    std::atomic_bool _is_running;
     std::thread _scheduler_thread;
     std::multimap<tc::sdk::clock::time_point, schedulable_task> _tasks;
     std::condition_variable _update_tasks_cv;
diff --git a/sdk/src/task_scheduler.cpp b/sdk/src/task_scheduler.cpp
index b5fc2a6..1eca3fb 100644
--- a/sdk/src/task_scheduler.cpp
+++ b/sdk/src/task_scheduler.cpp
@@ -19,6 +19,7 @@
 namespace tc::sdk
 {
 task_scheduler::task_scheduler()
+    : _is_running{false}
 {
 }
 
@@ -32,19 +33,21 @@ bool task_scheduler::start(const unsigned int num_threads)
     if (!_tp.start(num_threads))
         return false;
 
+    _is_running = true;
+
     std::promise<void> thread_started_notifier;
     std::future<void> thread_started_watcher = thread_started_notifier.get_future();
 
     _scheduler_thread = std::thread([this, &thread_started_notifier] {
         thread_started_notifier.set_value();
 
-        while (_tp.is_running())
+        while (_is_running)
         {
             std::unique_lock lock(_update_tasks_mtx);
 
             if (_tasks.empty())
             {
-                _update_tasks_cv.wait(lock, [this] { return !_tp.is_running() || !_tasks.empty(); });
+                _update_tasks_cv.wait(lock, [this] { return !_is_running || !_tasks.empty(); });
             }
             else
             {
@@ -57,7 +60,7 @@ bool task_scheduler::start(const unsigned int num_threads)
                     continue;
             }
 
-            if (!_tp.is_running())
+            if (!_is_running)
                 return;
 
             update_tasks();
@@ -71,11 +74,12 @@ bool task_scheduler::start(const unsigned int num_threads)
 
 bool task_scheduler::stop()
 {
-    if (!_tp.stop())
+    if (!_is_running)
         return false;
 
     {
         std::scoped_lock lock(_update_tasks_mtx);
+        _is_running = false;
         _tasks.clear();
     }
 
@@ -84,7 +88,8 @@ bool task_scheduler::stop()
     if (_scheduler_thread.joinable())
         _scheduler_thread.join();
 
-    return true;
+    // The workers are stopped last, so that no task is handed to a stopped thread pool.
+    return _tp.stop();
 }
 
 size_t task_scheduler::tasks_size()
@@ -172,7 +177,7 @@ bool task_scheduler::add_task(tc::sdk::clock::time_point&& timepoint, schedulabl
     {
         std::scoped_lock lock(_update_tasks_mtx);
 
-        if (!_tp.is_running())
+        if (!_is_running)
             return false;
 
         if (already_exists(st.hash()))
-- 
2.43.0


From ea69eca6f5988e8202069b6093778ccf7f9a7080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:32 +0000
Subject: [PATCH 10/18] fix: task_scheduler serialises start and stop

A stop() between the start of the pool and of the scheduler thread left that
thread joinable, and the destructor terminated the process.
---
 sdk/include/teiacare/sdk/task_scheduler.hpp | 1 +
 sdk/src/task_scheduler.cpp                  | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/sdk/include/teiacare/sdk/task_scheduler.hpp b/sdk/include/teiacare/sdk/task_scheduler.hpp
index 7533c8a..2281d54 100644
--- a/sdk/include/teiacare/sdk/task_scheduler.hpp
+++ b/sdk/include/teiacare/sdk/task_scheduler.hpp
@@ -427,6 +427,7 @@ public:
 private:
     tc::sdk::thread_pool _tp;
     std::atomic_bool _is_running;
+    std::mutex _is_running_mtx;
     std::thread _scheduler_thread;
     std::multimap<tc::sdk::clock::time_point, schedulable_task> _tasks;
     std::condition_variable _update_tasks_cv;
diff --git a/sdk/src/task_scheduler.cpp b/sdk/src/task_scheduler.cpp
index 1eca3fb..56c50fb 100644
--- a/sdk/src/task_scheduler.cpp
+++ b/sdk/src/task_scheduler.cpp
@@ -30,6 +30,7 @@ task_scheduler::~task_scheduler()
 
 bool task_scheduler::start(const unsigned int num_threads)
 {
+    std::scoped_lock running_lock(_is_running_mtx);
     if (!_tp.start(num_threads))
         return false;
 
@@ -74,6 +75,7 @@ bool task_scheduler::start(const unsigned int num_threads)
 
 bool task_scheduler::stop()
 {
+    std::scoped_lock running_lock(_is_running_mtx);
     if (!_is_running)
         return false;
 
-- 
2.43.0


From 4108f1667f9e809824bc6ac38f4d630daaac70f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:36 +0000
Subject: [PATCH 11/18] fix: thread_pool::stop discards tasks enqueued by its
 last running tasks

They stayed queued on the stopped pool and ran when it was started again.
---
 sdk/src/thread_pool.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sdk/src/thread_pool.cpp b/sdk/src/thread_pool.cpp
index 75eb3bd..1670a2e 100644
--- a/sdk/src/thread_pool.cpp
+++ b/sdk/src/thread_pool.cpp
@@ -72,6 +72,12 @@ bool thread_pool::stop()
 
     _threads.clear();
 
+    {
+        // Discard the tasks enqueued by the tasks that were still running.
+        std::scoped_lock lock(_task_mutex);
+        _task_queue = {};
+    }
+
     return true;
 }
 
-- 
2.43.0


From 8c2cd8208b1e40b792ab3b39980be46ea5dcf4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:46 +0000
Subject: [PATCH 12/18] fix: thread_pool::threads_count does not race with
 start and stop

It read the size of the vector of threads without synchronisation.
---
 sdk/include/teiacare/sdk/thread_pool.hpp | 1 +
 sdk/src/thread_pool.cpp                  | 6 +++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/sdk/include/teiacare/sdk/thread_pool.hpp b/sdk/include/teiacare/sdk/thread_pool.hpp
index dda217e..313e92e 100644
--- a/sdk/include/teiacare/sdk/thread_pool.hpp
+++ b/sdk/include/teiacare/sdk/thread_pool.hpp
@@ -117,6 +117,7 @@ private:
     std::atomic_bool _is_running;
     std::mutex _is_running_mutex;
     std::vector<std::thread> _threads;
+    std::atomic_size_t _threads_count;
     std::queue<tc::sdk::task> _task_queue;
     std::condition_variable _task_cv;
     std::mutex _task_mutex;
diff --git a/sdk/src/thread_pool.cpp b/sdk/src/thread_pool.cpp
index 1670a2e..88232de 100644
--- a/sdk/src/thread_pool.cpp
+++ b/sdk/src/thread_pool.cpp
@@ -20,6 +20,7 @@ namespace tc::sdk
 {
 thread_pool::thread_pool()
     : _is_running{false}
+    , _threads_count{0}
 {
 }
 
@@ -45,6 +46,8 @@ bool thread_pool::start(const unsigned int num_threads)
         _threads.emplace_back([this] { worker(); });
     }
 
+    _threads_count = _threads.size();
+
     is_ready->arrive_and_wait();
     return true;
 }
@@ -71,6 +74,7 @@ bool thread_pool::stop()
     }
 
     _threads.clear();
+    _threads_count = 0;
 
     {
         // Discard the tasks enqueued by the tasks that were still running.
@@ -83,7 +87,7 @@ bool thread_pool::stop()
 
 size_t thread_pool::threads_count() const
 {
-    return _threads.size();
+    return _threads_count;
 }
 
 bool thread_pool::is_running() const
-- 
2.43.0


From 7ff55ea7d960d6cf5a1a89032eb562fb9fbac148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:46 +0000
Subject: [PATCH 13/18] fix: high_precision_timer always moves past the
 invocation it completed

When the callback returned at exactly its due time the due time was kept, so
the callback ran twice for it, and missed_callback_count wrapped around.
---
 sdk/src/high_precision_timer.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sdk/src/high_precision_timer.cpp b/sdk/src/high_precision_timer.cpp
index 0a5e517..c54bf4c 100644
--- a/sdk/src/high_precision_timer.cpp
+++ b/sdk/src/high_precision_timer.cpp
@@ -100,11 +100,12 @@ void high_precision_timer::update_next_start_time()
 {
     auto task_next_start_time = _next_task_timepoint;
     const auto now = clock::now();
-    while (now > task_next_start_time)
+    do
     {
         task_next_start_time += _interval;
         ++_missed_callback_count;
-    }
+    } while (now > task_next_start_time);
+
     // Adjust _missed_callback_count removing the last execution from the counter.
     --_missed_callback_count;
     _next_task_timepoint = task_next_start_time;
-- 
2.43.0


From 8eb4499470973c8adc2430abcc47bc56a0ad1b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:14 +0000
Subject: [PATCH 14/18] fix: service_locator stores services by their interface
 address

register_service stored the address of the service object and get cast it to
the interface, which is another address when the interface is not its first base.
---
 sdk/include/teiacare/sdk/service_locator.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sdk/include/teiacare/sdk/service_locator.hpp b/sdk/include/teiacare/sdk/service_locator.hpp
index e0ea68a..512e9b7 100644
--- a/sdk/include/teiacare/sdk/service_locator.hpp
+++ b/sdk/include/teiacare/sdk/service_locator.hpp
@@ -62,7 +62,9 @@ public:
         static_assert(std::is_base_of_v<ServiceInterfaceT, ServiceT>,
                       "\nServiceT must inherit from ServiceInterfaceT");
 
-        auto [_, is_inserted] = _services.emplace(get_id<ServiceInterfaceT>(), std::make_shared<ServiceT>(std::forward<Args>(args)...));
+        // Convert to the interface before the type is erased: the two addresses may differ (e.g. with multiple inheritance).
+        std::shared_ptr<ServiceInterfaceT> service = std::make_shared<ServiceT>(std::forward<Args>(args)...);
+        auto [_, is_inserted] = _services.emplace(get_id<ServiceInterfaceT>(), std::move(service));
         return is_inserted;
     }
 
-- 
2.43.0


From 5da9f12756aa1ae1ff25346fef30800957f81283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:20 +0000
Subject: [PATCH 15/18] fix: argparse reports an invalid environment variable
 as an error

parse_from_env is noexcept but a value that does not convert, or does not
pass its validator, makes parse throw: the process was terminated.
---
 sdk/include/teiacare/sdk/argparse/argument_base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/include/teiacare/sdk/argparse/argument_base.hpp b/sdk/include/teiacare/sdk/argparse/argument_base.hpp
index 75b0c8d..c597469 100644
--- a/sdk/include/teiacare/sdk/argparse/argument_base.hpp
+++ b/sdk/include/teiacare/sdk/argparse/argument_base.hpp
@@ -84,7 +84,7 @@ public:
      * This function checks if the specified environment variable exists and,
      * if so, parses its value using the parse method.
      */
-    void parse_from_env() noexcept
+    void parse_from_env()
     {
         if (_env.empty())
             return;
-- 
2.43.0


From 85f9a5d06ba40c79fc694d119ae23466a5d0c33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:20 +0000
Subject: [PATCH 16/18] fix: argparse rejects options without a name

"-", "--" and "--=value" matched the first argument without a short name.
---
 sdk/src/argparse/argument_parser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sdk/src/argparse/argument_parser.cpp b/sdk/src/argparse/argument_parser.cpp
index 1217e3b..746d226 100644
--- a/sdk/src/argparse/argument_parser.cpp
+++ b/sdk/src/argparse/argument_parser.cpp
@@ -244,6 +244,10 @@ void argument_parser::print_arguments() const
 
 tc::sdk::argument_base* argument_parser::find_argument(std::string_view name, const std::vector<std::unique_ptr<tc::sdk::argument_base>>& args) const
 {
+    // An argument without a short name has an empty one: an empty name (e.g. "-" or "--=value") must not match it.
+    if (name.empty())
+        return nullptr;
+
     auto it = std::find_if(args.begin(), args.end(), [&](const std::unique_ptr<tc::sdk::argument_base>& arg) {
         return name == arg->get_name_short() || name == arg->get_name_long();
     });
-- 
2.43.0


From 45593a399593c10e5d73a9519b6aee86f341fa03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:20 +0000
Subject: [PATCH 17/18] fix: argparse reports any exception of a validator as
 an error

Exceptions not derived from std::exception escaped parse.
---
 sdk/src/argparse/argument_parser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sdk/src/argparse/argument_parser.cpp b/sdk/src/argparse/argument_parser.cpp
index 746d226..65893db 100644
--- a/sdk/src/argparse/argument_parser.cpp
+++ b/sdk/src/argparse/argument_parser.cpp
@@ -44,6 +44,12 @@ parse_result argument_parser::parse(int argc, char* argv[]) const
         print_help();
         return parse_result::error;
     }
+    catch (...)
+    {
+        std::cerr << "Unknown error" << std::endl;
+        print_help();
+        return parse_result::error;
+    }
 }
 
 parse_result argument_parser::parse(std::vector<std::string>&& args) const
-- 
2.43.0


From 546ca0bc1123c1bc2660e7c59e0275aac492ecb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:12 +0000
Subject: [PATCH 18/18] fix: high_precision_timer::set_callback replaces the
 callback under the worker mutex

---
 sdk/include/teiacare/sdk/high_precision_timer.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sdk/include/teiacare/sdk/high_precision_timer.hpp b/sdk/include/teiacare/sdk/high_precision_timer.hpp
index e7c5fb4..37ac1a0 100644
--- a/sdk/include/teiacare/sdk/high_precision_timer.hpp
+++ b/sdk/include/teiacare/sdk/high_precision_timer.hpp
@@ -84,7 +84,11 @@ public:
             return std::apply(t, params);
         };
 
-        _task = std::make_unique<tc::sdk::task>(std::move(task_func));
+        auto task = std::make_unique<tc::sdk::task>(std::move(task_func));
+
+        // The worker invokes the current task while it holds this mutex.
+        std::unique_lock<std::mutex> lock(_worker_mutex);
+        _task.swap(task);
     }
 
     /*!
-- 
2.43.0

