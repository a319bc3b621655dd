From a1c098ea8175d1d359497920681f43b1464f07f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:45 +0000
Subject: [PATCH 01/67] fix: reader_writer_lock: transfer ownership on move
 assignment

The defaulted move assignment copied the state, so that both lock objects considered themselves owners of the same lock
and unlocked it twice.
---
 include/mutable/util/reader_writer_lock.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/mutable/util/reader_writer_lock.hpp b/include/mutable/util/reader_writer_lock.hpp
index 13bf302..2bfd9c2 100644
--- a/include/mutable/util/reader_writer_lock.hpp
+++ b/include/mutable/util/reader_writer_lock.hpp
@@ -261,7 +261,11 @@ struct reader_writer_lock
         unlock();
     }
 
-    reader_writer_lock & operator=(reader_writer_lock &&other) = default;
+    reader_writer_lock & operator=(reader_writer_lock &&other) {
+        std::swap(rw_mutex_, other.rw_mutex_);
+        std::swap(state_, other.state_);
+        return *this;
+    }
 
     bool owns_read_lock() const { return state_ == LOCK_READ; }
     bool owns_write_lock() const { return state_ == LOCK_WRITE; }
-- 
2.43.0


From d156a73631e2b0179c7c511e387d491dcb478252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:45 +0000
Subject: [PATCH 02/67] fix: upgrade_lock: give up read lock after failed
 upgrade

As documented, the held read lock must be unlocked when the upgrade is refused.  Otherwise, the reader that is granted
the upgrade waits for this read lock while this reader may wait for the former.
---
 include/mutable/util/reader_writer_lock.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/mutable/util/reader_writer_lock.hpp b/include/mutable/util/reader_writer_lock.hpp
index 2bfd9c2..d5b6a0f 100644
--- a/include/mutable/util/reader_writer_lock.hpp
+++ b/include/mutable/util/reader_writer_lock.hpp
@@ -398,6 +398,7 @@ struct upgrade_lock : protected read_lock
             owns_lock_ = false;
             return write_lock{rw_mutex_, std::adopt_lock};  // we already own the write lock after upgrade
         }
+        unlock();  // prevent deadlock by giving up read lock after failing to upgrade
         return write_lock{rw_mutex_, std::defer_lock};  // we could not upgrade to a write lock
     }
 };
-- 
2.43.0


From 4d112df2ed90ed76eea1c03d973a8031318b2f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:01 +0000
Subject: [PATCH 03/67] fix: reader_writer_mutex: do not lose wake-up of
 upgrading reader

The upgrading reader and ordinary writers wait on the same condition variable.  When the second-last reader leaves,
notifying a single waiter may wake an ordinary writer, that cannot proceed, while the upgrading reader sleeps forever.
---
 include/mutable/util/reader_writer_lock.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/mutable/util/reader_writer_lock.hpp b/include/mutable/util/reader_writer_lock.hpp
index d5b6a0f..e52febc 100644
--- a/include/mutable/util/reader_writer_lock.hpp
+++ b/include/mutable/util/reader_writer_lock.hpp
@@ -208,9 +208,10 @@ class reader_writer_mutex
         M_insist(not rw_.reader_wants_upgrade() or rw_.writers_waiting() != 0,
                  "if a reader wants to upgrade, it must be waiting to claim the write lock");
         if (rw_.reader_wants_upgrade() and rw_.readers_active() == 1) {
-            /* There is a single active reader remaining, that wants to upgrade to a writer.  Notify it. */
+            /* There is a single active reader remaining, that wants to upgrade to a writer.  Notify it.  As it waits
+             * together with ordinary writers, that cannot proceed, all of them must be notified to certainly reach it. */
             lock.unlock();
-            notify_writer();
+            cv_writers_.notify_all();
         } else if (rw_.readers_active() == 0 and rw_.writers_waiting() != 0) {
             /* We were the last reader and there are writers waiting to acquire the lock.  Notify one of them. */
             lock.unlock();
-- 
2.43.0


From 2b798420f3ea63720df39053156d911b317236e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:06 +0000
Subject: [PATCH 04/67] fix: AddressSpace: initialise members of an empty
 address space

`AddressSpace(0)` left `addr_` and `size_` uninitialised, and the d'tor unmapped whatever range they denoted.
---
 include/mutable/util/memory.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/mutable/util/memory.hpp b/include/mutable/util/memory.hpp
index 974e96f..c78ead9 100644
--- a/include/mutable/util/memory.hpp
+++ b/include/mutable/util/memory.hpp
@@ -50,11 +50,11 @@ struct M_EXPORT AddressSpace
     }
 
     private:
-    void *addr_; ///< pointer to the beginning of the virtual address space
-    std::size_t size_; ///< size in bytes of the address space
+    void *addr_ = nullptr; ///< pointer to the beginning of the virtual address space
+    std::size_t size_ = 0; ///< size in bytes of the address space
 
     private:
-    AddressSpace() : addr_(nullptr), size_(0) { }
+    AddressSpace() = default;
     public:
     AddressSpace(std::size_t size);
     ~AddressSpace();
-- 
2.43.0


From 23a67838066674179aa6e40b8c6bab0bd03700ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:06 +0000
Subject: [PATCH 05/67] fix: LinearAllocator: register allocation before
 mapping it

If registering the allocation threw, the d'tor of the fresh `Memory` tried to deallocate an unknown allocation and thereby
terminated the process.
---
 src/util/memory.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/util/memory.cpp b/src/util/memory.cpp
index 2978054..f690a95 100644
--- a/src/util/memory.cpp
+++ b/src/util/memory.cpp
@@ -132,12 +132,15 @@ Memory LinearAllocator::allocate(std::size_t size)
      * Memory has been preallocated because resizing with `ftruncate()` is not supported on macOS.  */
 #endif
 
+    allocations_.push_back(offset_); // may throw, hence before we own the mapping
     void *addr = mmap(nullptr, aligned_size, PROT_READ|PROT_WRITE, MAP_SHARED, fd(), offset_);
-    if (addr == MAP_FAILED)
-        throw std::runtime_error(strerror(errno));
+    if (addr == MAP_FAILED) {
+        const auto errsv = errno;
+        allocations_.pop_back();
+        throw std::runtime_error(strerror(errsv));
+    }
 
     auto mem = create_memory(addr, aligned_size, offset_);
-    allocations_.push_back(offset_);
     offset_ += aligned_size;
     return mem;
 }
-- 
2.43.0


From ad38dc2728fd13bf354a5e2198735fbd3b6e33bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:06 +0000
Subject: [PATCH 06/67] fix: LinearAllocator: do not throw if memory cannot be
 reclaimed

`deallocate()` is called by the d'tor of `Memory`.  Throwing if `ftruncate()` fails terminates the process.
---
 src/util/memory.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/util/memory.cpp b/src/util/memory.cpp
index f690a95..00927eb 100644
--- a/src/util/memory.cpp
+++ b/src/util/memory.cpp
@@ -188,9 +188,10 @@ void LinearAllocator::deallocate(Memory &&mem)
         } while (it != allocations_.rend() and is_marked_for_deallocation(*it));
         M_insist(it == allocations_.rend() or not is_marked_for_deallocation(*it));
 
-        /* Truncate file to reclaim memory. */
+        /* Truncate file to reclaim memory.  This function is called by the d'tor of `Memory` and must not throw.  If we
+         * fail to truncate, the allocations remain marked and are reclaimed together with a later allocation. */
         if (ftruncate(fd(), new_size_of_file))
-            throw std::runtime_error(strerror(errno));
+            return;
         offset_ = new_size_of_file;
 
         /* Remove reclaimed allocations. */
-- 
2.43.0


From f7ea45e574fc74334b55076ed28f9ca34ba0649d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:35 +0000
Subject: [PATCH 07/67] fix: SerialScheduler: insert command after the last
 command of its transaction

---
 src/catalog/SerialScheduler.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/catalog/SerialScheduler.cpp b/src/catalog/SerialScheduler.cpp
index 1fc9b92..0bed028 100644
--- a/src/catalog/SerialScheduler.cpp
+++ b/src/catalog/SerialScheduler.cpp
@@ -48,15 +48,15 @@ void SerialScheduler::CommandQueue::push(Transaction &t, std::unique_ptr<ast::Co
 
     /* Check if transaction `t` already has elements in the queue, if not then check if the transaction is the currently
      * running transaction. If yes, then emplace the command in the front, otherwise emplace at the end. */
-    auto it = std::find_if(command_list_.rend(), command_list_.rbegin(),
+    auto it = std::find_if(command_list_.rbegin(), command_list_.rend(),
             [&t](queued_command &x){ return (t == std::get<0>(x)); }
     );
-    if (running_transaction_ and *running_transaction_ == t and it == command_list_.rend())
+    if (it != command_list_.rend())
+        command_list_.emplace(it.base(), t, std::move(command), diag, std::move(promise)); // right after last of `t`
+    else if (running_transaction_ and *running_transaction_ == t)
         command_list_.emplace_front(t, std::move(command), diag, std::move(promise));
-    else if (it == command_list_.rbegin())
-        command_list_.emplace_back(t, std::move(command), diag, std::move(promise));
     else
-        command_list_.emplace(++it.base(), t, std::move(command), diag, std::move(promise));
+        command_list_.emplace_back(t, std::move(command), diag, std::move(promise));
 
     lock.unlock();
     has_element_.notify_one();
-- 
2.43.0


From 886a01c0566f7376800faa280700a05a1191ecef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:35 +0000
Subject: [PATCH 08/67] fix: SerialScheduler: only the running transaction can
 be stopped

---
 src/catalog/SerialScheduler.cpp | 4 +++-
 src/catalog/SerialScheduler.hpp | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/catalog/SerialScheduler.cpp b/src/catalog/SerialScheduler.cpp
index 0bed028..ba5bf58 100644
--- a/src/catalog/SerialScheduler.cpp
+++ b/src/catalog/SerialScheduler.cpp
@@ -82,7 +82,9 @@ bool SerialScheduler::CommandQueue::is_closed()
 
 void SerialScheduler::CommandQueue::stop_transaction(Transaction &t) {
     std::unique_lock<std::mutex> lock(mutex_);
-    M_insist(&t == running_transaction_);
+    /* A transaction without any executed command never became the running transaction. */
+    if (&t != running_transaction_)
+        return;
     running_transaction_ = nullptr;
     lock.unlock();
     has_element_.notify_one();
diff --git a/src/catalog/SerialScheduler.hpp b/src/catalog/SerialScheduler.hpp
index d2dcc55..73785ed 100644
--- a/src/catalog/SerialScheduler.hpp
+++ b/src/catalog/SerialScheduler.hpp
@@ -20,7 +20,7 @@ struct SerialScheduler : Scheduler
     {
         private:
         std::list<queued_command> command_list_;
-        Transaction *running_transaction_; ///< the currently running transaction. Only commands by this transaction are returned.
+        Transaction *running_transaction_ = nullptr; ///< the currently running transaction. Only commands by this transaction are returned.
         std::mutex mutex_;
         std::condition_variable has_element_;
         bool closed_ = false;
-- 
2.43.0


From 54a89fa11c7f5e788d2662a34c7709486060b298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:35 +0000
Subject: [PATCH 09/67] fix: SerialScheduler: create a single worker thread if
 clients submit concurrently

---
 src/catalog/SerialScheduler.cpp | 5 ++---
 src/catalog/SerialScheduler.hpp | 2 ++
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/catalog/SerialScheduler.cpp b/src/catalog/SerialScheduler.cpp
index ba5bf58..dd57abf 100644
--- a/src/catalog/SerialScheduler.cpp
+++ b/src/catalog/SerialScheduler.cpp
@@ -107,9 +107,8 @@ std::future<bool> SerialScheduler::schedule_command(Transaction &t, std::unique_
     auto execution_completed_future = execution_completed.get_future();
     query_queue_.push(t, std::move(command), diag, std::move(execution_completed));
 
-    if (not schedule_thread_.joinable()) [[unlikely]]
-        // Creating the worker thread not here but in the constructor of `SerialScheduler` causes deadlocks.
-        schedule_thread_ = std::thread(schedule_thread);
+    // Creating the worker thread not here but in the constructor of `SerialScheduler` causes deadlocks.
+    std::call_once(schedule_thread_created_, [this]{ schedule_thread_ = std::thread(schedule_thread); });
     return execution_completed_future;
 }
 
diff --git a/src/catalog/SerialScheduler.hpp b/src/catalog/SerialScheduler.hpp
index 73785ed..1f0d0b9 100644
--- a/src/catalog/SerialScheduler.hpp
+++ b/src/catalog/SerialScheduler.hpp
@@ -4,6 +4,7 @@
 #include <condition_variable>
 #include <list>
 #include <future>
+#include <mutex>
 #include <thread>
 
 
@@ -42,6 +43,7 @@ struct SerialScheduler : Scheduler
 
     static CommandQueue query_queue_; ///< instance of our thread-safe query queue that stores all incoming plans.
     std::thread schedule_thread_; ///< the worker thread that executes all incoming queries.
+    std::once_flag schedule_thread_created_; ///< `schedule_thread_` is created once, by the first command
 
     static std::atomic<int64_t> next_start_time; ///< stores the next transaction start time
 
-- 
2.43.0


From 1d1b0ac4ce49445347d350b7609fac742d793c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:35 +0000
Subject: [PATCH 10/67] fix: SerialScheduler: Sema may return a command despite
 a parser error

---
 src/catalog/SerialScheduler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/catalog/SerialScheduler.cpp b/src/catalog/SerialScheduler.cpp
index dd57abf..d09b896 100644
--- a/src/catalog/SerialScheduler.cpp
+++ b/src/catalog/SerialScheduler.cpp
@@ -153,7 +153,7 @@ void SerialScheduler::schedule_thread()
         auto cmd = sema.analyze(std::move(ast));
         err |= diag.num_errors() > 0; // sema errors
 
-        M_insist(not err == bool(cmd), "when there are no errors, Sema must have returned a command");
+        M_insist(err or cmd, "when there are no errors, Sema must have returned a command");
         if (not err and cmd) {
             cmd->transaction(&t);
             cmd->execute(diag);
-- 
2.43.0


From dea80b0f5c2a40177f7fca3852d9dea101541baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:58 +0000
Subject: [PATCH 11/67] fix: SerialScheduler: a command that throws must not
 terminate the worker

---
 src/catalog/SerialScheduler.cpp | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/catalog/SerialScheduler.cpp b/src/catalog/SerialScheduler.cpp
index d09b896..06596bb 100644
--- a/src/catalog/SerialScheduler.cpp
+++ b/src/catalog/SerialScheduler.cpp
@@ -146,21 +146,25 @@ void SerialScheduler::schedule_thread()
          * run without every restarting mutable. */
         if (next_start_time < 0) [[unlikely]] M_unreachable("Transaction timestamp overflow");
 
-        ast::Sema sema(diag);
-        bool err = diag.num_errors() > 0; // parser errors
-
-        diag.clear();
-        auto cmd = sema.analyze(std::move(ast));
-        err |= diag.num_errors() > 0; // sema errors
-
-        M_insist(err or cmd, "when there are no errors, Sema must have returned a command");
-        if (not err and cmd) {
-            cmd->transaction(&t);
-            cmd->execute(diag);
-            promise.set_value(true);
-            continue;
+        bool success = false;
+        try {
+            ast::Sema sema(diag);
+            bool err = diag.num_errors() > 0; // parser errors
+
+            diag.clear();
+            auto cmd = sema.analyze(std::move(ast));
+            err |= diag.num_errors() > 0; // sema errors
+
+            M_insist(err or cmd, "when there are no errors, Sema must have returned a command");
+            if (not err and cmd) {
+                cmd->transaction(&t);
+                cmd->execute(diag);
+                success = true;
+            }
+        } catch (const std::exception &e) {
+            diag.err() << e.what() << std::endl; // the command failed, but the worker must go on
         }
-        promise.set_value(false);
+        promise.set_value(success);
     }
 }
 
-- 
2.43.0


From 91e5bfa77df229c121765721332786c127f75c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:15 +0000
Subject: [PATCH 12/67] fix: Catalog: stop the scheduler before destroying the
 databases

---
 include/mutable/catalog/Catalog.hpp | 6 ++++++
 src/catalog/Catalog.cpp             | 1 +
 2 files changed, 7 insertions(+)

diff --git a/include/mutable/catalog/Catalog.hpp b/include/mutable/catalog/Catalog.hpp
index 937ec86..7e351a4 100644
--- a/include/mutable/catalog/Catalog.hpp
+++ b/include/mutable/catalog/Catalog.hpp
@@ -164,6 +164,12 @@ struct ComponentSet
             default_ = it;
     }
 
+    /** Destroys all components. */
+    void clear() {
+        components_.clear();
+        default_ = components_.end();
+    }
+
     void set_default(const m::ThreadSafePooledString &name) {
         auto it = components_.find(name);
         if (it == components_.end())
diff --git a/src/catalog/Catalog.cpp b/src/catalog/Catalog.cpp
index 54ff4b6..b0ffcd2 100644
--- a/src/catalog/Catalog.cpp
+++ b/src/catalog/Catalog.cpp
@@ -32,6 +32,7 @@ Catalog::Catalog()
 
 Catalog::~Catalog()
 {
+    schedulers_.clear(); // wait for running commands *before* destroying the objects they use
     for (auto db : databases_)
         delete db.second;
     for (auto fn : standard_functions_)
-- 
2.43.0


From 966311bc9cbd6fc2fc7ba872fb1d26226c189ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:58 +0000
Subject: [PATCH 13/67] fix: Type: types are internalised by several threads

---
 include/mutable/catalog/Type.hpp | 4 ++--
 src/catalog/Type.cpp             | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/mutable/catalog/Type.hpp b/include/mutable/catalog/Type.hpp
index 931dad6..2ac2d0a 100644
--- a/include/mutable/catalog/Type.hpp
+++ b/include/mutable/catalog/Type.hpp
@@ -51,11 +51,11 @@ struct M_EXPORT Type
 #undef category_t
 
     protected:
-    static Pool<Type> types_; ///< a pool of internalized, parameterized types
+    static ThreadSafePool<Type> types_; ///< a pool of internalized, parameterized types
 
     public:
     template<typename T>
-    using Pooled = m::Pooled<T, Pool<Type>>;
+    using Pooled = m::Pooled<T, ThreadSafePool<Type>>;
 
     Type() = default;
     Type(const Type&) = delete;
diff --git a/src/catalog/Type.cpp b/src/catalog/Type.cpp
index b613cd1..967fc89 100644
--- a/src/catalog/Type.cpp
+++ b/src/catalog/Type.cpp
@@ -15,7 +15,7 @@ constexpr const char *Type::CATEGORY_TO_STR_[];
 
 uint64_t std::hash<m::Type>::operator()(const m::Type &type) const { return type.hash(); }
 
-Pool<Type> Type::types_;
+ThreadSafePool<Type> Type::types_;
 
 M_LCOV_EXCL_START
 void Type::dump() const { dump(std::cerr); }
-- 
2.43.0


From a1602c20de1e7c07c54c6a4decb3b355e738357b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:02 +0000
Subject: [PATCH 14/67] fix: Tuple::clone keeps NULL values

Cloning cleared the NULL bit of every value, so operators that buffer tuples (joins, sorting) turned NULL into 0 or the
empty string.
---
 src/IR/Tuple.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/IR/Tuple.cpp b/src/IR/Tuple.cpp
index 1ccbaaa..644f525 100644
--- a/src/IR/Tuple.cpp
+++ b/src/IR/Tuple.cpp
@@ -125,7 +125,9 @@ Tuple Tuple::clone(const Schema &S) const
 {
     Tuple cpy(S);
     for (std::size_t i = 0; i != S.num_entries(); ++i) {
-        if (S[i].type->is_character_sequence()) {
+        if (is_null(i)) {
+            cpy.null(i);
+        } else if (S[i].type->is_character_sequence()) {
             strcpy(reinterpret_cast<char*>(cpy[i].as_p()), reinterpret_cast<char*>((*this)[i].as_p()));
             cpy.not_null(i);
         } else {
-- 
2.43.0


From 993ddab37dabc9306d1343e88127236b07fd5f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:02 +0000
Subject: [PATCH 15/67] fix: Interpreter: load from a table that is accessed by
 an alias

The loader resolves the attributes of the scan's schema, which are qualified by the alias.
---
 src/backend/Interpreter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/backend/Interpreter.cpp b/src/backend/Interpreter.cpp
index e6f0c5a..7327d5c 100644
--- a/src/backend/Interpreter.cpp
+++ b/src/backend/Interpreter.cpp
@@ -903,7 +903,8 @@ void Pipeline::operator()(const ScanOperator &op)
     const auto num_rows = store.num_rows();
 
     /* Compile StackMachine to load tuples from store. */
-    auto loader = Interpreter::compile_load(op.schema(), store.memory().addr(), table.layout(), table.schema());
+    auto loader = Interpreter::compile_load(op.schema(), store.memory().addr(), table.layout(),
+                                            table.schema(op.alias()));
 
     const auto remainder = num_rows % block_.capacity();
     std::size_t i = 0;
-- 
2.43.0


From bb8a68bb3733b77d4236d557c605a233f6596246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:02 +0000
Subject: [PATCH 16/67] fix: Interpreter: NULL join keys have no join partner

The simple hash join compared NULL keys as equal.
---
 src/backend/Interpreter.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/backend/Interpreter.cpp b/src/backend/Interpreter.cpp
index 7327d5c..10c808e 100644
--- a/src/backend/Interpreter.cpp
+++ b/src/backend/Interpreter.cpp
@@ -704,6 +704,13 @@ struct SimpleHashJoinData : JoinData
         key = Tuple(key_schema);
     }
 
+    /** Returns `true` iff any part of the current key is `NULL`.  Such a key does not compare equal to any key. */
+    bool key_has_null() const {
+        for (std::size_t i = 0; i != key_schema.num_entries(); ++i)
+            if (key.is_null(i)) return true;
+        return false;
+    }
+
     void load_build_key(const Schema &pipeline_schema) {
         for (std::size_t i = 0; i != exprs.size(); ++i) {
             const ast::Expr *expr = exprs[i].first;
@@ -1006,6 +1013,7 @@ void Pipeline::operator()(const JoinOperator &op)
             for (auto &t : block_) {
                 args[1] = &t;
                 data->probe_key(args);
+                if (data->key_has_null()) continue; // `NULL` has no join partner
                 pipeline.block_.fill();
                 data->ht.for_all(*args[0], [&](std::pair<const Tuple, Tuple> &v) {
                     if (i == pipeline.block_.capacity()) {
@@ -1039,6 +1047,7 @@ void Pipeline::operator()(const JoinOperator &op)
             for (auto &t : block_) {
                 args[1] = &t;
                 data->build_key(args);
+                if (data->key_has_null()) continue; // `NULL` has no join partner
                 data->ht.insert_with_duplicates(args[0]->clone(data->key_schema), t.clone(tuple_schema));
             }
         }
-- 
2.43.0


From 6626b88b83c6eaa3489e451c5fe353a20873de98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:02 +0000
Subject: [PATCH 17/67] fix: INSERT: DEFAULT and NULL in the second and later
 rows

The tuple is reused for all rows of the statement; a value that is not set explicitly kept the value of the previous row.
NULL was written by the position in the statement rather than by attribute id.
---
 src/catalog/DatabaseCommand.cpp | 3 ++-
 src/mutable.cpp                 | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/catalog/DatabaseCommand.cpp b/src/catalog/DatabaseCommand.cpp
index 5128ca3..2212c61 100644
--- a/src/catalog/DatabaseCommand.cpp
+++ b/src/catalog/DatabaseCommand.cpp
@@ -149,13 +149,14 @@ void InsertRecords::execute(Diagnostic&)
 
     /* Write all tuples to the store. */
     for (auto &t : I.tuples) {
+        tup.clear(); // values not set below are NULL
         StackMachine get_tuple(Schema{});
         for (std::size_t i = 0; i != t.size(); ++i) {
             auto attr_id = T.convert_id(i); // hidden attributes change the actual id of the attribute
             auto &v = t[i];
             switch (v.first) {
                 case ast::InsertStmt::I_Null:
-                    get_tuple.emit_St_Tup_Null(0, i);
+                    get_tuple.emit_St_Tup_Null(0, attr_id);
                     break;
 
                 case ast::InsertStmt::I_Default:
diff --git a/src/mutable.cpp b/src/mutable.cpp
index 372fd31..e6373cb 100644
--- a/src/mutable.cpp
+++ b/src/mutable.cpp
@@ -196,6 +196,7 @@ void m::execute_statement(Diagnostic &diag, const ast::Stmt &stmt, const bool is
 
         /* Write all tuples to the store. */
         for (auto &t : I->tuples) {
+            tup.clear(); // values not set below are NULL
             StackMachine get_tuple(Schema{});
             for (std::size_t i = 0; i != t.size(); ++i) {
                 auto &v = t[i];
-- 
2.43.0


From 9ba8841f84399e146f0e5d6698d1c87dd2d1b12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:02 +0000
Subject: [PATCH 18/67] fix: timestamp filter: qualify by the alias of the
 table

A query that accesses a multi-versioned table by an alias violated the requirement that the filter's attributes are part
of the operator's schema.
---
 src/catalog/Schema.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/catalog/Schema.cpp b/src/catalog/Schema.cpp
index c6e548e..c223f80 100644
--- a/src/catalog/Schema.cpp
+++ b/src/catalog/Schema.cpp
@@ -169,7 +169,7 @@ void apply_timestamp_filter(QueryGraph &G)
                                    });
 
             if (it != bt->table().end_hidden()) {
-                ast::Token table_name(pos, bt->table().name(), TK_EOF);
+                ast::Token table_name(pos, bt->name().assert_not_none(), TK_EOF);
                 /*----- Build AST -----*/
                 // $ts_begin
                 std::unique_ptr<ast::Expr> ts_begin_designator = std::make_unique<ast::Designator>(
-- 
2.43.0


From d09cb3bf4e41541720c364552bce5f9baa81b0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:56 +0000
Subject: [PATCH 19/67] fix: Parser: request tokens only when needed

The parser always read two tokens ahead, across the end of the statement.  A lexical error at the beginning of a
statement was hence reported while parsing the previous statement, which was refused although it is correct.
---
 src/parse/Parser.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/parse/Parser.hpp b/src/parse/Parser.hpp
index 714928b..13a3800 100644
--- a/src/parse/Parser.hpp
+++ b/src/parse/Parser.hpp
@@ -22,20 +22,25 @@ struct M_EXPORT Parser
     Diagnostic &diag;
 
     private:
+    /** The tokens already requested from the lexer.  Tokens are only requested when needed: the tokens of the next
+     * statement, and errors therein, must not affect the statement being parsed. */
     std::array<Token, 2> lookahead_;
+    unsigned num_lookahead_ = 0; ///< the number of valid tokens in `lookahead_`
 
     public:
     explicit Parser(Lexer &lexer)
         : lexer(lexer)
         , diag(lexer.diag)
         , lookahead_({Token::CreateArtificial(), Token::CreateArtificial()})
-    {
-        consume();
-        consume();
-    }
+    { }
 
     template<unsigned Idx = 0>
-    const Token & token() { return lookahead_[Idx]; }
+    const Token & token() {
+        static_assert(Idx < std::tuple_size_v<decltype(lookahead_)>, "exceeds the lookahead");
+        while (num_lookahead_ <= Idx)
+            lookahead_[num_lookahead_++] = lexer.next();
+        return lookahead_[Idx];
+    }
 
     bool is(const TokenType tt) { return token() == tt; }
     bool no(const TokenType tt) { return token() != tt; }
@@ -44,7 +49,7 @@ struct M_EXPORT Parser
         auto old = token();
         for (std::size_t i = 1; i != lookahead_.size(); ++i)
             lookahead_[i - 1] = lookahead_[i];
-        lookahead_.back() = lexer.next();
+        --num_lookahead_;
         return old;
     }
 
-- 
2.43.0


From 263fb3d3faf326d3d4bf7779451d67780f01f5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:56 +0000
Subject: [PATCH 20/67] fix: Sema: refuse nested aggregates

They were accepted and aborted the process when compiled.
---
 src/parse/Sema.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/parse/Sema.cpp b/src/parse/Sema.cpp
index ff462a5..c984347 100644
--- a/src/parse/Sema.cpp
+++ b/src/parse/Sema.cpp
@@ -540,6 +540,24 @@ void Sema::operator()(FnApplicationExpr &e)
     }
     M_insist(e.func_);
 
+    /* Aggregates cannot be nested. */
+    if (e.func_->is_aggregate()) {
+        bool has_nested_aggregate = false;
+        for (auto &arg : e.args) {
+            visit(overloaded {
+                [&](const FnApplicationExpr &fn) {
+                    has_nested_aggregate |= fn.func_ and fn.func_->is_aggregate();
+                },
+                [](auto&&) { },
+            }, *arg, m::tag<ConstPreOrderExprVisitor>());
+        }
+        if (has_nested_aggregate) {
+            diag.e(d->attr_name.pos) << "Aggregate " << *d << " must not contain another aggregate.\n";
+            d->type_ = e.type_ = Type::Get_Error();
+            return;
+        }
+    }
+
     /* Infer the type of the function.  Functions are defined in an abstract way, where the type of the parameters is
      * not specified.  We must infer the parameter types and the return type of the function. */
     switch (e.func_->fnid) {
-- 
2.43.0


From 0f109ba73c04da31a2aab5a0233944e04954f18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:56 +0000
Subject: [PATCH 21/67] fix: StackMachine: integral division by zero or by NULL
 must not terminate the process

---
 src/backend/StackMachine.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/backend/StackMachine.cpp b/src/backend/StackMachine.cpp
index c6939db..bd86d68 100644
--- a/src/backend/StackMachine.cpp
+++ b/src/backend/StackMachine.cpp
@@ -3,6 +3,7 @@
 #include "backend/Interpreter.hpp"
 #include <ctime>
 #include <functional>
+#include <mutable/util/exception.hpp>
 #include <mutable/util/fn.hpp>
 #include <regex>
 
@@ -1228,6 +1229,22 @@ NEXT;
 } \
 NEXT;
 
+/* Integral division.  The value of a NULL operand is arbitrary and must not be divided by.  Division by -1 is handled
+ * separately because it may overflow. */
+#define DIVISION(OP, BY_MINUS_ONE) { \
+    M_insist(top_ >= 2); \
+    const int64_t rhs = TOP.as<int64_t>(); \
+    const bool is_rhs_null = TOP_IS_NULL; \
+    POP(); \
+    const int64_t lhs = TOP.as<int64_t>(); \
+    TOP_IS_NULL = TOP_IS_NULL or is_rhs_null; \
+    if (not TOP_IS_NULL) { \
+        if (rhs == 0) throw m::runtime_error("division by zero"); \
+        TOP = rhs == -1 ? int64_t(BY_MINUS_ONE) : OP(lhs, rhs); \
+    } \
+} \
+NEXT;
+
 /* Integral increment. */
 Inc: UNARY(++, int64_t);
 
@@ -1265,12 +1282,12 @@ Mul_f: BINARY(std::multiplies{}, float);
 Mul_d: BINARY(std::multiplies{}, double);
 
 /* Divide two values. */
-Div_i: BINARY(std::divides{}, int64_t);
+Div_i: DIVISION(std::divides{}, uint64_t(0) - uint64_t(lhs));
 Div_f: BINARY(std::divides{}, float);
 Div_d: BINARY(std::divides{}, double);
 
 /* Modulo divide two values. */
-Mod_i: BINARY(std::modulus{}, int64_t);
+Mod_i: DIVISION(std::modulus{}, int64_t(0));
 
 /* Concatenate two strings. */
 Cat_s: {
-- 
2.43.0


From 1c35dca24352db661ad4289fdcafa88423ccb6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:56 +0000
Subject: [PATCH 22/67] fix: Interpreter: ORDER BY with an empty input or with
 NULL values

Both violated an assertion.  NULL is ordered before all other values, as in the WebAssembly backend.
---
 src/backend/Interpreter.cpp | 37 ++++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/src/backend/Interpreter.cpp b/src/backend/Interpreter.cpp
index 10c808e..427860a 100644
--- a/src/backend/Interpreter.cpp
+++ b/src/backend/Interpreter.cpp
@@ -1596,14 +1596,23 @@ void Interpreter::operator()(const SortingOperator &op)
 {
     op.child(0)->accept(*this);
 
-    auto data = as<SortingData>(op.data());
-    if (not data) // no tuples produced
+    if (not op.data()) // no tuples produced
         return;
+    auto data = as<SortingData>(op.data());
 
     const auto &orderings = op.order_by();
 
-    StackMachine comparator(data->pipeline.schema());
+    /* For each ordering, compute whether the LHS and the RHS are `NULL` and the result of comparing LHS and RHS. */
+    std::vector<StackMachine> comparators;
     for (auto o : orderings) {
+        auto &comparator = comparators.emplace_back(data->pipeline.schema());
+        comparator.emit(o.first.get(), 1); // LHS
+        comparator.emit_Is_Null();
+        comparator.emit_St_Tup_b(0, 0);
+        comparator.emit(o.first.get(), 2); // RHS
+        comparator.emit_Is_Null();
+        comparator.emit_St_Tup_b(0, 1);
+
         comparator.emit(o.first.get(), 1); // LHS
         comparator.emit(o.first.get(), 2); // RHS
 
@@ -1634,16 +1643,26 @@ void Interpreter::operator()(const SortingOperator &op)
 
         if (not o.second)
             comparator.emit_Minus_i(); // sort descending
-        comparator.emit_St_Tup_i(0, 0);
-        comparator.emit_Stop_NZ();
+        comparator.emit_St_Tup_i(0, 2);
     }
 
-    Tuple res({ Type::Get_Integer(Type::TY_Vector, 4) });
+    Tuple res({ Type::Get_Boolean(Type::TY_Vector), Type::Get_Boolean(Type::TY_Vector),
+                Type::Get_Integer(Type::TY_Vector, 4) });
     std::sort(data->buffer.begin(), data->buffer.end(), [&](Tuple &first, Tuple &second) {
         Tuple *args[] = { &res, &first, &second };
-        comparator(args);
-        M_insist(not res.is_null(0));
-        return res[0].as_i() < 0;
+        for (auto &comparator : comparators) {
+            comparator(args);
+            const bool is_first_null = res[0].as_b();
+            const bool is_second_null = res[1].as_b();
+            if (is_first_null != is_second_null)
+                return is_first_null; // NULL is ordered before all other values
+            if (is_first_null)
+                continue; // both are NULL
+            M_insist(not res.is_null(2));
+            if (auto cmp = res[2].as_i(); cmp != 0)
+                return cmp < 0;
+        }
+        return false;
     });
 
     auto &parent = *op.parent();
-- 
2.43.0


From 656900ea8dc091b70536b2ca1a729093f9b67570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:10 +0000
Subject: [PATCH 23/67] fix: SerialScheduler: a command that emits an error has
 failed

---
 src/catalog/SerialScheduler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/catalog/SerialScheduler.cpp b/src/catalog/SerialScheduler.cpp
index 06596bb..7d8c969 100644
--- a/src/catalog/SerialScheduler.cpp
+++ b/src/catalog/SerialScheduler.cpp
@@ -159,7 +159,7 @@ void SerialScheduler::schedule_thread()
             if (not err and cmd) {
                 cmd->transaction(&t);
                 cmd->execute(diag);
-                success = true;
+                success = diag.num_errors() == 0; // commands report failure by emitting an error
             }
         } catch (const std::exception &e) {
             diag.err() << e.what() << std::endl; // the command failed, but the worker must go on
-- 
2.43.0


From 932814f5a7451bad967cc2bc00a2971d2266171c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:50 +0000
Subject: [PATCH 24/67] fix: INSERT: compute all rows before inserting the
 first

---
 src/catalog/DatabaseCommand.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/catalog/DatabaseCommand.cpp b/src/catalog/DatabaseCommand.cpp
index 2212c61..1bc5206 100644
--- a/src/catalog/DatabaseCommand.cpp
+++ b/src/catalog/DatabaseCommand.cpp
@@ -135,7 +135,6 @@ void InsertRecords::execute(Diagnostic&)
     auto &store = T.store();
     StoreWriter W(store);
     auto &S = W.schema();
-    Tuple tup(S);
 
     /* Find timestamp attributes */
     auto ts_begin = std::find_if(T.cbegin_hidden(), T.end_hidden(),
@@ -147,9 +146,11 @@ void InsertRecords::execute(Diagnostic&)
                                     return attr.name == C.pool("$ts_end");
     });
 
-    /* Write all tuples to the store. */
+    /* Compute all tuples.  Write them to the store only afterwards, s.t. no tuple is inserted if computing one fails. */
+    std::vector<Tuple> tuples;
+    tuples.reserve(I.tuples.size());
     for (auto &t : I.tuples) {
-        tup.clear(); // values not set below are NULL
+        auto &tup = tuples.emplace_back(S); // values not set below are NULL
         StackMachine get_tuple(Schema{});
         for (std::size_t i = 0; i != t.size(); ++i) {
             auto attr_id = T.convert_id(i); // hidden attributes change the actual id of the attribute
@@ -180,9 +181,12 @@ void InsertRecords::execute(Diagnostic&)
             M_insist(ts_end != T.end_hidden());
             tup.set(ts_end->id, Value(-1));
         }
+    }
 
+    /* Write all tuples to the store. */
+    for (auto &tup : tuples)
         W.append(tup);
-    }
+
     /* Invalidate all indexes on the table. */
     DB.invalidate_indexes(T.name());
 }
-- 
2.43.0


From 76ff7f8391a67fecc6b30841f1db6ce8563da739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:43 +0000
Subject: [PATCH 25/67] fix: CREATE TABLE: do not add a table whose store
 cannot be created

---
 src/catalog/DatabaseCommand.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/catalog/DatabaseCommand.cpp b/src/catalog/DatabaseCommand.cpp
index 1bc5206..ef55821 100644
--- a/src/catalog/DatabaseCommand.cpp
+++ b/src/catalog/DatabaseCommand.cpp
@@ -268,18 +268,17 @@ void CreateTable::execute(Diagnostic &diag)
     auto &C = Catalog::Get();
     auto &DB = C.get_database_in_use();
     ThreadSafePooledString table_name = table_->name();
-    Table *table = nullptr;
+    /* Create the store before adding the table, s.t. there is never a table without store. */
+    table_->layout(C.data_layout());
+    table_->store(C.create_store(*table_));
+
     try {
-        table = &DB.add(std::move(table_));
+        DB.add(std::move(table_));
+        if (not Options::Get().quiet)
+            diag.out() << "Created table " << table_name << ".\n";
     } catch (std::invalid_argument) {
         diag.err() << "Table " << table_name << " already exists in database " << DB.name << ".\n";
     }
-
-    table->layout(C.data_layout());
-    table->store(C.create_store(*table));
-
-    if (not Options::Get().quiet)
-        diag.out() << "Created table " << table->name() << ".\n";
 }
 
 void DropTable::execute(Diagnostic &diag)
-- 
2.43.0


From 3617f0b9d1e95cddbe9bf21389a24bbfebd16204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:43 +0000
Subject: [PATCH 26/67] fix: CREATE INDEX: do not add an index that could not
 be bulkloaded

---
 src/catalog/DatabaseCommand.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/catalog/DatabaseCommand.cpp b/src/catalog/DatabaseCommand.cpp
index ef55821..2704c24 100644
--- a/src/catalog/DatabaseCommand.cpp
+++ b/src/catalog/DatabaseCommand.cpp
@@ -317,6 +317,7 @@ void CreateIndex::execute(Diagnostic &diag)
         M_TIME_EXPR(index_->bulkload(table, schema), "Bulkload index", C.timer());
     } catch (invalid_argument) {
         diag.err() << "Could not bulkload index." << '\n';
+        return;
     }
 
     /* Add index to database. */
-- 
2.43.0


From ec326c1f19cc5135e4ed3bd30e2eed548dcd66bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:43 +0000
Subject: [PATCH 27/67] fix: IMPORT: invalidate the indexes of the table

---
 src/catalog/DatabaseCommand.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/catalog/DatabaseCommand.cpp b/src/catalog/DatabaseCommand.cpp
index 2704c24..b2f6ef5 100644
--- a/src/catalog/DatabaseCommand.cpp
+++ b/src/catalog/DatabaseCommand.cpp
@@ -216,6 +216,7 @@ void ImportDSV::execute(Diagnostic &diag)
                 diag.err() << ": " << strerror(errsv);
             diag.err() << std::endl;
         } else {
+            C.get_database_in_use().invalidate_indexes(table_.name()); // the indexes do not cover the imported rows
             M_TIME_EXPR(R(file, path_.c_str()), "Read DSV file", C.timer());
         }
     } catch (m::invalid_argument e) {
-- 
2.43.0


From 3bddabf300e640ba5695baaba64cc6a0f95eacfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:43 +0000
Subject: [PATCH 28/67] fix: Sema: an index method that is not available for
 the key type is an error

---
 src/parse/Sema.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/Sema.cpp b/src/parse/Sema.cpp
index c984347..edb1cf8 100644
--- a/src/parse/Sema.cpp
+++ b/src/parse/Sema.cpp
@@ -1724,7 +1724,7 @@ void Sema::operator()(CreateIndexStmt &s)
         if constexpr(requires { typename Index<Key>; }) {
             return std::make_unique<Index<Key>>();
         } else {
-            diag(s.method.pos) << "Index method not available for given key type.\n";
+            diag.e(s.method.pos) << "Index method not available for given key type.\n";
             return nullptr;
         }
     };
-- 
2.43.0


From 6cd03807854dce1eab129430ca843b69db8b3f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:15 +0000
Subject: [PATCH 29/67] fix: Sema: DROP of a table or index named repeatedly
 must not fail halfway

---
 src/parse/Sema.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parse/Sema.cpp b/src/parse/Sema.cpp
index edb1cf8..bb6fa2e 100644
--- a/src/parse/Sema.cpp
+++ b/src/parse/Sema.cpp
@@ -1610,6 +1610,8 @@ void Sema::operator()(DropTableStmt &s)
     std::vector<ThreadSafePooledString> table_names;
     for (auto &tok : s.table_names) {
         auto table_name = tok->text.assert_not_none();
+        if (std::find(table_names.begin(), table_names.end(), table_name) != table_names.end())
+            continue; // named repeatedly, drop only once
         if (DB.has_table(table_name))
             table_names.emplace_back(std::move(table_name));
         else {
@@ -1790,6 +1792,8 @@ void Sema::operator()(DropIndexStmt &s)
     std::vector<ThreadSafePooledString> index_names;
     for (auto &tok : s.index_names) {
         auto index_name = tok->text.assert_not_none();
+        if (std::find(index_names.begin(), index_names.end(), index_name) != index_names.end())
+            continue; // named repeatedly, drop only once
         if (DB.has_index(index_name))
             index_names.emplace_back(index_name);
         else {
-- 
2.43.0


From 1fb31543b8d994d4aec70792dcdb08d2783dea47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:35 +0000
Subject: [PATCH 30/67] fix: RecursiveModelIndex: empty index, predictions
 outside of the index, wide key ranges

---
 include/mutable/storage/Index.hpp | 15 +++++++++++----
 src/storage/Index.cpp             |  6 +++++-
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/include/mutable/storage/Index.hpp b/include/mutable/storage/Index.hpp
index 7c6deb3..ebfdc1e 100644
--- a/include/mutable/storage/Index.hpp
+++ b/include/mutable/storage/Index.hpp
@@ -185,7 +185,7 @@ struct RecursiveModelIndex : ArrayIndex<Key>
             if (n == 0) return { 0.0, 0.0 };
             if (n == 1) return { 0.0, static_cast<double>(offset) * compression_factor };
             double numerator = static_cast<double>(n); // (offset + n) - offset
-            double denominator = static_cast<double>((*(last - 1)).first - (*first).first);
+            double denominator = static_cast<double>((*(last - 1)).first) - static_cast<double>((*first).first);
             double slope = denominator != 0 ? numerator/denominator * compression_factor : 0.0;
             double intercept = offset * compression_factor - slope * (*first).first;
             return { slope, intercept };
@@ -252,6 +252,7 @@ struct RecursiveModelIndex : ArrayIndex<Key>
      * index is not finalized. */
     const_iterator lower_bound(const key_type key) const override {
         if (not base_type::finalized()) throw m::exception("Index is not finalized.");
+        if (base_type::num_entries() == 0) return base_type::end();
         return lower_bound_exponential_search(base_type::begin() + predict(key), key);
     }
 
@@ -260,6 +261,7 @@ struct RecursiveModelIndex : ArrayIndex<Key>
      * is not finalized. */
     const_iterator upper_bound(const key_type key) const override {
         if (not base_type::finalized()) throw m::exception("Index is not finalized.");
+        if (base_type::num_entries() == 0) return base_type::end();
         return upper_bound_exponential_search(base_type::begin() + predict(key), key);
     }
 
@@ -267,10 +269,15 @@ struct RecursiveModelIndex : ArrayIndex<Key>
     void dump() const override { dump(std::cerr); }
 
     private:
+    /** Converts the prediction \p pred to an integer in [0, \p max].  \p pred may be NaN. */
+    static std::size_t to_position(const double pred, const std::size_t max) {
+        if (not (pred > 0)) return 0;
+        return pred < static_cast<double>(max) ? static_cast<std::size_t>(pred) : max;
+    }
+    /** Predicts the position of \p key.  The index must not be empty. */
     std::size_t predict(const key_type key) const {
-        auto segment_id = std::clamp<double>(models_[0](key), 0, models_.size() - 2);
-        auto pred = std::clamp<double>(models_[segment_id + 1](key), 0, base_type::num_entries());
-        return static_cast<std::size_t>(pred);
+        const std::size_t segment_id = to_position(models_[0](key), models_.size() - 2);
+        return to_position(models_[segment_id + 1](key), base_type::num_entries() - 1);
     }
     const_iterator lower_bound_exponential_search(const_iterator pred, const key_type value) const {
         auto begin = base_type::begin();
diff --git a/src/storage/Index.cpp b/src/storage/Index.cpp
index f16039b..a280611 100644
--- a/src/storage/Index.cpp
+++ b/src/storage/Index.cpp
@@ -169,6 +169,10 @@ void RecursiveModelIndex<Key>::finalize()
     auto begin = base_type::begin();
     auto end = base_type::end();
     std::size_t n_keys = std::distance(begin, end);
+    if (n_keys == 0) { // nothing to learn from
+        base_type::finalized_ = true;
+        return;
+    }
     std::size_t n_models = std::max<std::size_t>(1, n_keys * options::rmi_model_entry_ratio);
     models_.reserve(n_models + 1);
 
@@ -183,7 +187,7 @@ void RecursiveModelIndex<Key>::finalize()
     );
 
     /* Train second layer. */
-    auto get_segment_id = [&](entry_type e) { return std::clamp<double>(models_[0](e.first), 0, n_models - 1);  };
+    auto get_segment_id = [&](entry_type e) { return to_position(models_[0](e.first), n_models - 1); };
     std::size_t segment_start = 0;
     std::size_t segment_id = 0;
     for (std::size_t i = 0; i != n_keys; ++i) {
-- 
2.43.0


From 4ba21b42385d1108817b7106b493de34983455ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:41 +0000
Subject: [PATCH 31/67] fix: Interpreter: size the hash table of a join by its
 build input

---
 src/backend/Interpreter.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/backend/Interpreter.cpp b/src/backend/Interpreter.cpp
index 427860a..9650a15 100644
--- a/src/backend/Interpreter.cpp
+++ b/src/backend/Interpreter.cpp
@@ -1461,8 +1461,11 @@ void Interpreter::operator()(const JoinOperator &op)
         /* Perform simple hash join. */
         auto data = new SimpleHashJoinData(op);
         op.data(data);
-        if (op.has_info())
-            data->ht.resize(op.info().estimated_cardinality);
+        if (op.child(0)->has_info()) {
+            /* The hash table holds the build input, not the result.  The estimate is only a hint, don't overdo it. */
+            constexpr double MAX_INITIAL_CAPACITY = 1UL << 16;
+            data->ht.resize(std::min<double>(op.child(0)->info().estimated_cardinality, MAX_INITIAL_CAPACITY));
+        }
         op.child(0)->accept(*this); // build HT on LHS
         if (data->ht.size() == 0) // no tuples produced
             return;
-- 
2.43.0


From f2ad49cbdc848a00b761779ffc7183a3687013b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:17 +0000
Subject: [PATCH 32/67] fix: Interpreter: join and group character sequences by
 their contents

---
 src/backend/Interpreter.cpp | 61 ++++++++++++++++++++++++++++++++-----
 1 file changed, 53 insertions(+), 8 deletions(-)

diff --git a/src/backend/Interpreter.cpp b/src/backend/Interpreter.cpp
index 9650a15..16a1afb 100644
--- a/src/backend/Interpreter.cpp
+++ b/src/backend/Interpreter.cpp
@@ -642,21 +642,65 @@ struct NestedLoopsJoinData : JoinData
     ~NestedLoopsJoinData() { delete[] buffers; }
 };
 
+/** Computes the hash of a key part \p val of type \p type.  Character sequences are hashed by their contents. */
+static uint64_t hash_key_part(const Value &val, const Type &type)
+{
+    if (type.is_character_sequence())
+        return std::hash<std::string_view>{}(val.as<const char*>());
+    return std::hash<Value>{}(val);
+}
+
+/** Compares two key parts of type \p type.  Character sequences are compared by their contents. */
+static bool equal_key_part(const Value &first, const Value &second, const Type &type)
+{
+    if (type.is_character_sequence())
+        return streq(first.as<const char*>(), second.as<const char*>());
+    return first == second;
+}
+
 struct SimpleHashJoinData : JoinData
 {
+    /** Callable to compute the hash of a join key.  Join keys are never `NULL`. */
+    struct hasher
+    {
+        const Schema *key_schema;
+
+        uint64_t operator()(const Tuple &key) const {
+            uint64_t hash = 0;
+            for (std::size_t i = 0; i != key_schema->num_entries(); ++i) {
+                hash ^= hash_key_part(key[i], *(*key_schema)[i].type);
+                hash *= 1099511628211;
+            }
+            return hash;
+        }
+    };
+
+    /** Callable to compare two join keys.  Join keys are never `NULL`. */
+    struct equals
+    {
+        const Schema *key_schema;
+
+        bool operator()(const Tuple &first, const Tuple &second) const {
+            for (std::size_t i = 0; i != key_schema->num_entries(); ++i) {
+                if (not equal_key_part(first[i], second[i], *(*key_schema)[i].type)) return false;
+            }
+            return true;
+        }
+    };
+
     Catalog &C = Catalog::Get();
     bool is_probe_phase = false; ///< determines whether tuples are used to *build* or *probe* the hash table
     std::vector<std::pair<const ast::Expr*, const ast::Expr*>> exprs;
     StackMachine build_key; ///< extracts the key of the build input
     StackMachine probe_key; ///< extracts the key of the probe input
-    RefCountingHashMap<Tuple, Tuple> ht; ///< hash table on build input
+    RefCountingHashMap<Tuple, Tuple, hasher, equals> ht; ///< hash table on build input
 
     Schema key_schema; ///< the `Schema` of the `key`
     Tuple key; ///< `Tuple` to hold the key
 
     SimpleHashJoinData(const JoinOperator &op)
         : JoinData(op)
-        , ht(1024)
+        , ht(1024, hasher{&key_schema}, equals{&key_schema})
     {
         auto &schema_lhs = op.child(0)->schema();
 #ifndef NDEBUG
@@ -814,14 +858,14 @@ struct HashBasedGroupingData : GroupingData
     struct hasher
     {
         std::size_t key_size;
+        const Schema &schema; ///< the schema of the tuples, starts with the keys
 
-        hasher(std::size_t key_size) : key_size(key_size) { }
+        hasher(std::size_t key_size, const Schema &schema) : key_size(key_size), schema(schema) { }
 
         uint64_t operator()(const Tuple &tup) const {
-            std::hash<Value> h;
             uint64_t hash = 0xcbf29ce484222325;
             for (std::size_t i = 0; i != key_size; ++i) {
-                hash ^= tup.is_null(i) ? 0 : h(tup[i]);
+                hash ^= tup.is_null(i) ? 0 : hash_key_part(tup[i], *schema[i].type);
                 hash *= 1099511628211;
             }
             return hash;
@@ -832,14 +876,15 @@ struct HashBasedGroupingData : GroupingData
     struct equals
     {
         std::size_t key_size;
+        const Schema &schema; ///< the schema of the tuples, starts with the keys
 
-        equals(std::size_t key_size) : key_size(key_size) { }
+        equals(std::size_t key_size, const Schema &schema) : key_size(key_size), schema(schema) { }
 
         uint64_t operator()(const Tuple &first, const Tuple &second) const {
             for (std::size_t i = 0; i != key_size; ++i) {
                 if (first.is_null(i) != second.is_null(i)) return false;
                 if (not first.is_null(i))
-                    if (first.get(i) != second.get(i)) return false;
+                    if (not equal_key_part(first.get(i), second.get(i), *schema[i].type)) return false;
             }
             return true;
         }
@@ -851,7 +896,7 @@ struct HashBasedGroupingData : GroupingData
 
     HashBasedGroupingData(const GroupingOperator &op)
         : GroupingData(op)
-        , groups(1024, hasher(op.group_by().size()), equals(op.group_by().size()))
+        , groups(1024, hasher(op.group_by().size(), op.schema()), equals(op.group_by().size(), op.schema()))
     { }
 };
 
-- 
2.43.0


From 43d1a694bbc7de98939cd7a077c4c3647cece009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:31 +0000
Subject: [PATCH 33/67] fix: DSV import takes byte 0xFF for the end of the
 input

The current character was stored as char, in which byte 0xFF equals EOF: the
import ended there, without a diagnostic, and the rest of the file was lost.
---
 include/mutable/io/Reader.hpp | 15 ++++++++++-----
 src/io/DSVReader.cpp          | 32 ++++++++++++++++----------------
 2 files changed, 26 insertions(+), 21 deletions(-)

diff --git a/include/mutable/io/Reader.hpp b/include/mutable/io/Reader.hpp
index ff1fe1d..e81f991 100644
--- a/include/mutable/io/Reader.hpp
+++ b/include/mutable/io/Reader.hpp
@@ -71,7 +71,7 @@ struct M_EXPORT DSVReader : Reader, ConstTypeVisitor
     Config cfg_;
 
     Position pos;
-    char c;
+    int c; ///< the current character, as `unsigned char`, or `EOF`; a `char` could not tell byte 0xFF from `EOF`
     std::istream *in = nullptr;
     std::vector<char> buf;
     Tuple tup; ///< intermediate tuple to store values of a row
@@ -118,15 +118,20 @@ struct M_EXPORT DSVReader : Reader, ConstTypeVisitor
 
     void push() { buf.push_back(c); step(); }
 
-    bool accept(char chr) { if (c == chr) { step(); return true; } return false; }
+    /** Returns `true` iff the current character is `chr`. */
+    bool is(char chr) const { return c == static_cast<unsigned char>(chr); }
+    /** Returns `true` iff the current character ends the current cell. */
+    bool is_end_of_cell() const { return c == EOF or c == '\n' or is(config().delimiter); }
+
+    bool accept(char chr) { if (is(chr)) { step(); return true; } return false; }
 
     void discard_cell() {
-        if (c == config().quote) {
+        if (is(config().quote)) {
             step();
-            while (c != EOF and c != '\n' and c != config().quote) { step(); }
+            while (c != EOF and c != '\n' and not is(config().quote)) { step(); }
             accept(config().quote);
         } else
-            while (c != EOF and c != '\n' and c != config().delimiter) { step(); }
+            while (not is_end_of_cell()) { step(); }
     }
     void discard_row() { while (c != EOF and c != '\n') { step(); } }
 
diff --git a/src/io/DSVReader.cpp b/src/io/DSVReader.cpp
index 1d12b69..d1dfbdb 100644
--- a/src/io/DSVReader.cpp
+++ b/src/io/DSVReader.cpp
@@ -53,7 +53,7 @@ void DSVReader::operator()(std::istream &in, const char *name)
 
     auto read_cell = [&]() -> ThreadSafePooledString {
         buf.clear();
-        while (c != EOF and c != '\n' and c != config().delimiter) {
+        while (not is_end_of_cell()) {
             buf.push_back(c);
             step();
         }
@@ -70,7 +70,7 @@ void DSVReader::operator()(std::istream &in, const char *name)
                 attr = &table.at(name);
             } catch (std::out_of_range) { /* nothing to do */ }
             columns.push_back(attr);
-            if (c == config().delimiter)
+            if (is(config().delimiter))
                 step(); // discard delimiter
         }
         M_insist(c == EOF or c == '\n');
@@ -111,7 +111,7 @@ void DSVReader::operator()(std::istream &in, const char *name)
             }
 
             if (col) { // current cell should be read
-                if ((i == columns.size() - 1 and c == '\n') or (i < columns.size() - 1 and c == config().delimiter)) { // NULL
+                if ((i == columns.size() - 1 and c == '\n') or (i < columns.size() - 1 and is(config().delimiter))) { // NULL
                     tup.null(col->id);
                     continue; // keep delimiter (expected at beginning of each loop)
                 }
@@ -155,7 +155,7 @@ end_of_row:
 void DSVReader::operator()(Const<Boolean>&)
 {
     buf.clear();
-    while (c != EOF and c != '\n' and c != config().delimiter) { push(); }
+    while (not is_end_of_cell()) { push(); }
     buf.push_back(0);
     if (streq("TRUE", &buf[0]))
         tup.set(col_idx, true);
@@ -175,11 +175,11 @@ void DSVReader::operator()(Const<CharacterSequence>&)
     if (accept(config().quote)) {
         if (config().escape == config().quote) { // RFC 4180
             while (c != EOF) {
-                if (c != config().quote) {
+                if (not is(config().quote)) {
                     push();
                 } else {
                     step();
-                    if (c == config().quote)
+                    if (is(config().quote))
                         push();
                     else
                         break;
@@ -187,10 +187,10 @@ void DSVReader::operator()(Const<CharacterSequence>&)
             }
         } else {
             while (c != EOF) {
-                if (c == config().quote) {
+                if (is(config().quote)) {
                     step();
                     break;
-                } else if (c == config().escape) {
+                } else if (is(config().escape)) {
                     step();
                     push();
                 } else {
@@ -199,12 +199,12 @@ void DSVReader::operator()(Const<CharacterSequence>&)
             }
         }
     } else {
-        while (c != EOF and c != '\n' and c != config().delimiter) {
-            if (c == config().quote) {
+        while (not is_end_of_cell()) {
+            if (is(config().quote)) {
                 diag.e(pos) << "WARNING: Illegal character " << config().quote << " found in unquoted string.\n";
                 /* Entire cell is discarded. */
                 tup.null(col_idx);
-                while (c != EOF and c != '\n' and c != config().delimiter) step();
+                while (not is_end_of_cell()) step();
                 return;
             } else
                 push();
@@ -291,10 +291,10 @@ void DSVReader::operator()(Const<Numeric> &ty)
             else
                 accept('+');
             int64_t i = read_unsigned_int();
-            if (c != EOF and c != '\n' and c != config().delimiter) {
+            if (not is_end_of_cell()) {
                 diag.e(pos) << "WARNING: Unexpected characters encountered in an integer.\n";
                 tup.null(col_idx);
-                while (c != EOF and c != '\n' and c != config().delimiter) step();
+                while (not is_end_of_cell()) step();
                 return;
             }
             if (is_neg) i = -i;
@@ -327,10 +327,10 @@ void DSVReader::operator()(Const<Numeric> &ty)
                 while (is_dec(c)) { step(); }
                 d += d >= 0 ? post_dot : -post_dot;
             }
-            if (c != EOF and c != '\n' and c != config().delimiter) {
+            if (not is_end_of_cell()) {
                 diag.e(pos) << "WARNING: Unexpected characters encountered in a decimal.\n";
                 tup.null(col_idx);
-                while (c != EOF and c != '\n' and c != config().delimiter) step();
+                while (not is_end_of_cell()) step();
                 return;
             }
             if (is_neg) d = -d;
@@ -340,7 +340,7 @@ void DSVReader::operator()(Const<Numeric> &ty)
 
         case Numeric::N_Float: {
             std::string float_str;
-            while(c != EOF and c != '\n' and c != config().delimiter) {
+            while (not is_end_of_cell()) {
                 float_str += c;
                 step();
             }
-- 
2.43.0


From 322a2eaec37899a74d3c262410aa27ca8159f4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:31 +0000
Subject: [PATCH 34/67] fix: DSV import keeps an unwritten row for a line with
 too many cells

The row was appended to the store but never written, and the rows that follow
were written one position too early: the table ended with a garbage row.
---
 src/io/DSVReader.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/io/DSVReader.cpp b/src/io/DSVReader.cpp
index d1dfbdb..107ab77 100644
--- a/src/io/DSVReader.cpp
+++ b/src/io/DSVReader.cpp
@@ -125,6 +125,8 @@ void DSVReader::operator()(std::istream &in, const char *name)
         if (c != EOF and c != '\n') {
             diag.e(pos) << "Expected end of row.\n";
             discard_row();
+            --idx;
+            store.drop(); // drop the malformed row
         } else {
             if (layout != &table.layout()) {
                 /* The data layout was updated, recompile stack machine. */
-- 
2.43.0


From 006d5ad8f3663fcf7162ca833971e3c8467cc4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:31 +0000
Subject: [PATCH 35/67] fix: empty last cell of a DSV file without final
 newline is NULL

It was read as 0 or as an empty string.
---
 src/io/DSVReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/DSVReader.cpp b/src/io/DSVReader.cpp
index 107ab77..2245076 100644
--- a/src/io/DSVReader.cpp
+++ b/src/io/DSVReader.cpp
@@ -111,7 +111,7 @@ void DSVReader::operator()(std::istream &in, const char *name)
             }
 
             if (col) { // current cell should be read
-                if ((i == columns.size() - 1 and c == '\n') or (i < columns.size() - 1 and is(config().delimiter))) { // NULL
+                if ((i == columns.size() - 1 and (c == '\n' or c == EOF)) or (i < columns.size() - 1 and is(config().delimiter))) { // NULL
                     tup.null(col->id);
                     continue; // keep delimiter (expected at beginning of each loop)
                 }
-- 
2.43.0


From fbe42374b17e74a6290fe9d334b3f746b80d2a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:31 +0000
Subject: [PATCH 36/67] fix: malformed Boolean in a DSV file stores the value
 of the previous row

---
 src/io/DSVReader.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/io/DSVReader.cpp b/src/io/DSVReader.cpp
index 2245076..a83f221 100644
--- a/src/io/DSVReader.cpp
+++ b/src/io/DSVReader.cpp
@@ -163,8 +163,10 @@ void DSVReader::operator()(Const<Boolean>&)
         tup.set(col_idx, true);
     else if (streq("FALSE", &buf[0]))
         tup.set(col_idx, false);
-    else
+    else {
         diag.e(pos) << "Expected TRUE or FALSE.\n";
+        tup.null(col_idx); // do not keep the value of the previous row
+    }
 }
 
 void DSVReader::operator()(Const<CharacterSequence>&)
-- 
2.43.0


From a9c66cef42350299ff9fdd3269631d79b48a2c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:31 +0000
Subject: [PATCH 37/67] fix: DSV import stores integers that the file does not
 contain

An integer out of the range of its column overflowed or was truncated, and a
sign without digits was read as 0, both without a diagnostic.
---
 src/io/DSVReader.cpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/io/DSVReader.cpp b/src/io/DSVReader.cpp
index a83f221..73248c1 100644
--- a/src/io/DSVReader.cpp
+++ b/src/io/DSVReader.cpp
@@ -294,15 +294,28 @@ void DSVReader::operator()(Const<Numeric> &ty)
                 is_neg = true;
             else
                 accept('+');
-            int64_t i = read_unsigned_int();
-            if (not is_end_of_cell()) {
+            /* Read the magnitude; it may exceed the range of negative or positive values of the type. */
+            const bool has_digits = is_dec(c);
+            const uint64_t max = (uint64_t(1) << (8 * ty.precision - 1)) - (is_neg ? 0 : 1);
+            uint64_t i = 0;
+            bool in_range = true;
+            for (; is_dec(c); step()) {
+                const uint64_t digit = c - '0';
+                in_range = in_range and i <= (max - digit) / 10;
+                i = 10 * i + digit;
+            }
+            if (not has_digits or not is_end_of_cell()) {
                 diag.e(pos) << "WARNING: Unexpected characters encountered in an integer.\n";
                 tup.null(col_idx);
                 while (not is_end_of_cell()) step();
                 return;
             }
-            if (is_neg) i = -i;
-            tup.set(col_idx, i);
+            if (not in_range) {
+                diag.e(pos) << "WARNING: Integer is out of range of " << ty << ".\n";
+                tup.null(col_idx);
+                return;
+            }
+            tup.set(col_idx, int64_t(is_neg ? -i : i));
             break;
         }
 
-- 
2.43.0


From aaf1c9cfb37e6fc5bf2e68332894b793fb83f3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:31 +0000
Subject: [PATCH 38/67] fix: DSV import silently shortens strings

Text after the closing quote of a string, characters that exceed the length of
the column and everything behind a NUL byte were dropped without a diagnostic,
and an escape character at the end of the input yielded an additional byte.
---
 src/io/DSVReader.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/io/DSVReader.cpp b/src/io/DSVReader.cpp
index 73248c1..d034f53 100644
--- a/src/io/DSVReader.cpp
+++ b/src/io/DSVReader.cpp
@@ -2,6 +2,7 @@
 
 #include "backend/Interpreter.hpp"
 #include "backend/StackMachine.hpp"
+#include <algorithm>
 #include <cctype>
 #include <cerrno>
 #include <exception>
@@ -169,7 +170,7 @@ void DSVReader::operator()(Const<Boolean>&)
     }
 }
 
-void DSVReader::operator()(Const<CharacterSequence>&)
+void DSVReader::operator()(Const<CharacterSequence> &ty)
 {
     /* This implementation is compliant with RFC 4180.  In quoted strings, quotes have to be escaped with an additional
      * quote.  In unquoted strings, delimiter and quotes are prohibited.  In both cases, escape sequences are not
@@ -196,7 +197,7 @@ void DSVReader::operator()(Const<CharacterSequence>&)
                     break;
                 } else if (is(config().escape)) {
                     step();
-                    push();
+                    if (c != EOF) push();
                 } else {
                     push();
                 }
@@ -214,6 +215,17 @@ void DSVReader::operator()(Const<CharacterSequence>&)
                 push();
         }
     }
+    if (not is_end_of_cell()) {
+        diag.e(pos) << "WARNING: Unexpected characters encountered after a quoted string.\n";
+        tup.null(col_idx);
+        while (not is_end_of_cell()) step();
+        return;
+    }
+    if (buf.size() > ty.length or std::find(buf.begin(), buf.end(), '\0') != buf.end()) {
+        diag.e(pos) << "WARNING: String cannot be stored as " << ty << ".\n";
+        tup.null(col_idx);
+        return;
+    }
     buf.push_back(0);
 
     Catalog &C = Catalog::Get();
-- 
2.43.0


From 1451e1830436f7ad5e16136a33e1cb366aac982f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:54 +0000
Subject: [PATCH 39/67] fix: DSV import of floating-point numbers out of range

A number below the smallest one was stored as the smallest positive number, a
number that only exceeds FLOAT was stored as infinity without a warning, and
everything behind a NUL byte was ignored.
---
 src/io/DSVReader.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/io/DSVReader.cpp b/src/io/DSVReader.cpp
index d034f53..642ca9e 100644
--- a/src/io/DSVReader.cpp
+++ b/src/io/DSVReader.cpp
@@ -5,6 +5,7 @@
 #include <algorithm>
 #include <cctype>
 #include <cerrno>
+#include <cmath>
 #include <exception>
 #include <iterator>
 #include <limits>
@@ -376,17 +377,20 @@ void DSVReader::operator()(Const<Numeric> &ty)
             char* end;
             errno = 0;
             double d = std::strtod(float_str.c_str(), &end);
-            if (*end != '\0') {
+            if (float_str.empty() or end != float_str.c_str() + float_str.size()) {
                 diag.e(pos) << "WARNING: Unexpected characters encountered in a floating-point number.\n";
                 tup.null(col_idx);
                 return;
             }
-            if ( errno == ERANGE and ( d == HUGE_VAL or d == HUGE_VALF or d == HUGE_VALL ) ) {
+            const double max = ty.is_float() ? std::numeric_limits<float>::max() : std::numeric_limits<double>::max();
+            /* An infinite number is out of range unless it is written as such. */
+            const bool out_of_range = std::isinf(d) ? errno == ERANGE : std::abs(d) > max;
+            if (out_of_range and d > 0) {
                 diag.w(pos) << "WARNING: A floating-point number is larger than the maximum value.\n";
-                d = std::numeric_limits<double>::max();
-            } else if ( errno == ERANGE and (d == -HUGE_VAL or d == -HUGE_VALF or d == -HUGE_VALL ) ) {
+                d = max;
+            } else if (out_of_range) {
                 diag.w(pos) << "WARNING: A floating-point number is smaller than the minimum value.\n";
-                d = std::numeric_limits<double>::min();
+                d = -max;
             }
             if (ty.is_float())
                 tup.set(col_idx, float(d));
-- 
2.43.0


From 59e56c0294a3d1189f9106ac079a968e2e27fe07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:54 +0000
Subject: [PATCH 40/67] fix: DSV import accepts dates that do not exist

2020-13-45 was stored as another date; such a date is refused in a statement.
---
 src/io/DSVReader.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/io/DSVReader.cpp b/src/io/DSVReader.cpp
index 642ca9e..a2ac78c 100644
--- a/src/io/DSVReader.cpp
+++ b/src/io/DSVReader.cpp
@@ -233,6 +233,17 @@ void DSVReader::operator()(Const<CharacterSequence> &ty)
     tup.set(col_idx, C.pool(&buf[0]));
 }
 
+/** Returns `true` iff the text `d'[-]YYYY-MM-DD[ hh:mm:ss]'` denotes an existing date (and time). */
+static bool is_valid_date(const char *text)
+{
+    int year, month, day, hour = 0, minute = 0, second = 0;
+    const int num = sscanf(text, "d'%d-%d-%d %d:%d:%d'", &year, &month, &day, &hour, &minute, &second);
+    if (num != 3 and num != 6) return false;
+    if (year == 0 or month < 1 or month > 12) return false; // there is no year 0
+    constexpr int DAYS[] = { 31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
+    return day >= 1 and day <= DAYS[month - 1] and hour < 24 and minute < 60 and second < 60;
+}
+
 void DSVReader::operator()(Const<Date>&)
 {
     Catalog &C = Catalog::Get();
@@ -255,6 +266,8 @@ void DSVReader::operator()(Const<Date>&)
     buf.push_back('\'');
     buf.push_back(0);
 
+    if (not is_valid_date(buf.data()))
+        goto invalid;
     tup.set(col_idx, Interpreter::eval(ast::Constant(ast::Token(pos, C.pool(buf.data()), TK_DATE))));
     return;
 
@@ -290,6 +303,8 @@ void DSVReader::operator()(Const<DateTime>&)
 
     buf.push_back('\'');
     buf.push_back(0);
+    if (not is_valid_date(buf.data()))
+        goto invalid;
     tup.set(col_idx, Interpreter::eval(ast::Constant(ast::Token(pos, C.pool(buf.data()), TK_DATE_TIME))));
     return;
 
-- 
2.43.0


From 632d102f53ecf673a9714581f1c1ce604c541760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:22 +0000
Subject: [PATCH 41/67] fix: DSV import with an empty header line skips the
 first row

The first character of the header had been read before the header was skipped:
if that was the newline, the line that follows was skipped.
---
 src/io/DSVReader.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/io/DSVReader.cpp b/src/io/DSVReader.cpp
index a2ac78c..4e9c70c 100644
--- a/src/io/DSVReader.cpp
+++ b/src/io/DSVReader.cpp
@@ -81,8 +81,7 @@ void DSVReader::operator()(std::istream &in, const char *name)
         for (auto &attr : table)
             columns.push_back(&attr);
         if (config().skip_header) {
-            in.ignore(std::numeric_limits<std::streamsize>::max(), '\n'); // skip entire line
-            c = '\n';
+            discard_row(); // skip entire line, whose first character has already been read
             step(); // skip newline
         }
     }
-- 
2.43.0


From 3286251e45fa7b671d097c98f5f4a74642108fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:22 +0000
Subject: [PATCH 42/67] fix: DSV import takes a read error for the end of the
 file

The rows up to the error were imported, including the beginning of the row that
was being read, and the import was reported as successful.
---
 src/io/DSVReader.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/io/DSVReader.cpp b/src/io/DSVReader.cpp
index 4e9c70c..3365a8f 100644
--- a/src/io/DSVReader.cpp
+++ b/src/io/DSVReader.cpp
@@ -123,6 +123,10 @@ void DSVReader::operator()(std::istream &in, const char *name)
                 discard_cell();
             }
         }
+        if (in.bad()) {
+            store.drop(); // drop the unfinished row
+            break;
+        }
         if (c != EOF and c != '\n') {
             diag.e(pos) << "Expected end of row.\n";
             discard_row();
@@ -151,6 +155,9 @@ end_of_row:
         step();
     }
 
+    if (in.bad())
+        diag.e(pos) << "Reading the input failed.\n";
+
     this->in = nullptr;
 }
 
-- 
2.43.0


From eb2d81fb6cb4a35109d0d92c4b33409481a15150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:22 +0000
Subject: [PATCH 43/67] fix: IMPORT ... ROWS with a large or octal number

---
 src/parse/Sema.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/Sema.cpp b/src/parse/Sema.cpp
index bb6fa2e..baab632 100644
--- a/src/parse/Sema.cpp
+++ b/src/parse/Sema.cpp
@@ -1941,7 +1941,7 @@ void Sema::operator()(DSVImportStmt &s)
     cfg.has_header = s.has_header;
     cfg.skip_header = s.skip_header;
     if (s.rows)
-        cfg.num_rows = atoi(*s.rows.text);
+        cfg.num_rows = strtoull(*s.rows.text, nullptr, 0);
 
     /* If character was provided by user, check that length is equal to 1. */
 #define SET_CHAR(NAME) \
-- 
2.43.0


From abe8b10ad9ab2df2425a0819d9366fb6d4c95f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:10 +0000
Subject: [PATCH 44/67] fix: DSV import stores a value for NULL in an attribute
 declared NOT NULL

Such an attribute has no NULL bit, so that an empty cell was read back as 0.  As
for INSERT, the row is refused.
---
 src/io/DSVReader.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/io/DSVReader.cpp b/src/io/DSVReader.cpp
index 3365a8f..3791a86 100644
--- a/src/io/DSVReader.cpp
+++ b/src/io/DSVReader.cpp
@@ -132,6 +132,13 @@ void DSVReader::operator()(std::istream &in, const char *name)
             discard_row();
             --idx;
             store.drop(); // drop the malformed row
+        } else if (auto attr = std::find_if(table.begin(), table.end(), [this](const Attribute &attr) {
+                       return attr.not_nullable and tup.is_null(attr.id);
+                   }); attr != table.end())
+        {
+            diag.e(pos) << "Value NULL is not valid for attribute " << attr->name << " declared as NOT NULL.\n";
+            --idx;
+            store.drop(); // drop the malformed row
         } else {
             if (layout != &table.layout()) {
                 /* The data layout was updated, recompile stack machine. */
-- 
2.43.0


From a6c5f07ee13cef7d8ea1c3660e769412116972e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:20 +0000
Subject: [PATCH 45/67] fix: DSV import ends a skipped quoted cell at an
 escaped quote or newline

---
 include/mutable/io/Reader.hpp | 14 +++++----
 src/io/DSVReader.cpp          | 55 +++++++++++++++++++----------------
 2 files changed, 38 insertions(+), 31 deletions(-)

diff --git a/include/mutable/io/Reader.hpp b/include/mutable/io/Reader.hpp
index e81f991..1f60b8e 100644
--- a/include/mutable/io/Reader.hpp
+++ b/include/mutable/io/Reader.hpp
@@ -125,13 +125,15 @@ struct M_EXPORT DSVReader : Reader, ConstTypeVisitor
 
     bool accept(char chr) { if (is(chr)) { step(); return true; } return false; }
 
+    /** Appends a quoted string to `buf`, up to its closing quote or `EOF`.  The opening quote has already been read. */
+    void read_quoted();
+
     void discard_cell() {
-        if (is(config().quote)) {
-            step();
-            while (c != EOF and c != '\n' and not is(config().quote)) { step(); }
-            accept(config().quote);
-        } else
-            while (not is_end_of_cell()) { step(); }
+        if (accept(config().quote)) {
+            buf.clear();
+            read_quoted();
+        }
+        while (not is_end_of_cell()) { step(); }
     }
     void discard_row() { while (c != EOF and c != '\n') { step(); } }
 
diff --git a/src/io/DSVReader.cpp b/src/io/DSVReader.cpp
index 3791a86..d51ee53 100644
--- a/src/io/DSVReader.cpp
+++ b/src/io/DSVReader.cpp
@@ -184,6 +184,35 @@ void DSVReader::operator()(Const<Boolean>&)
     }
 }
 
+void DSVReader::read_quoted()
+{
+    if (config().escape == config().quote) { // RFC 4180
+        while (c != EOF) {
+            if (not is(config().quote)) {
+                push();
+            } else {
+                step();
+                if (is(config().quote))
+                    push();
+                else
+                    break;
+            }
+        }
+    } else {
+        while (c != EOF) {
+            if (is(config().quote)) {
+                step();
+                break;
+            } else if (is(config().escape)) {
+                step();
+                if (c != EOF) push();
+            } else {
+                push();
+            }
+        }
+    }
+}
+
 void DSVReader::operator()(Const<CharacterSequence> &ty)
 {
     /* This implementation is compliant with RFC 4180.  In quoted strings, quotes have to be escaped with an additional
@@ -192,31 +221,7 @@ void DSVReader::operator()(Const<CharacterSequence> &ty)
      * Source: https://tools.ietf.org/html/rfc4180#section-2 */
     buf.clear();
     if (accept(config().quote)) {
-        if (config().escape == config().quote) { // RFC 4180
-            while (c != EOF) {
-                if (not is(config().quote)) {
-                    push();
-                } else {
-                    step();
-                    if (is(config().quote))
-                        push();
-                    else
-                        break;
-                }
-            }
-        } else {
-            while (c != EOF) {
-                if (is(config().quote)) {
-                    step();
-                    break;
-                } else if (is(config().escape)) {
-                    step();
-                    if (c != EOF) push();
-                } else {
-                    push();
-                }
-            }
-        }
+        read_quoted();
     } else {
         while (not is_end_of_cell()) {
             if (is(config().quote)) {
-- 
2.43.0


From 08e59fa17f9dfeab979533e75096b8d98b576109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:07 +0000
Subject: [PATCH 46/67] fix: DSV import of decimals out of range or without
 digits

---
 include/mutable/io/Reader.hpp |  2 --
 src/io/DSVReader.cpp          | 52 +++++++++++++++++------------------
 2 files changed, 25 insertions(+), 29 deletions(-)

diff --git a/include/mutable/io/Reader.hpp b/include/mutable/io/Reader.hpp
index 1f60b8e..f87fca7 100644
--- a/include/mutable/io/Reader.hpp
+++ b/include/mutable/io/Reader.hpp
@@ -136,8 +136,6 @@ struct M_EXPORT DSVReader : Reader, ConstTypeVisitor
         while (not is_end_of_cell()) { step(); }
     }
     void discard_row() { while (c != EOF and c != '\n') { step(); } }
-
-    int64_t read_unsigned_int();
 };
 
 }
diff --git a/src/io/DSVReader.cpp b/src/io/DSVReader.cpp
index d51ee53..d864c11 100644
--- a/src/io/DSVReader.cpp
+++ b/src/io/DSVReader.cpp
@@ -366,38 +366,46 @@ void DSVReader::operator()(Const<Numeric> &ty)
         }
 
         case Numeric::N_Decimal: {
-            auto scale = ty.scale;
-            /* Read pre dot digits. */
             bool is_neg = false;
             if (accept('-'))
                 is_neg = true;
             else
                 accept('+');
-            int64_t d = read_unsigned_int();
-            // std::cerr << "Read: " << d;
-            d = d * powi(10, scale);
+            const uint64_t max = ty.precision < 19 ? powi<uint64_t>(10, ty.precision) - 1
+                                                   : uint64_t(std::numeric_limits<int64_t>::max());
+            uint64_t d = 0; // the magnitude
+            bool has_digits = is_dec(c);
+            bool in_range = true;
+            auto append = [&](uint64_t digit) {
+                in_range = in_range and digit <= max and d <= (max - digit) / 10;
+                d = 10 * d + digit;
+            };
+            /* Read pre dot digits. */
+            for (; is_dec(c); step())
+                append(c - '0');
+            auto n = ty.scale;
             if (accept('.')) {
+                has_digits = has_digits or is_dec(c);
                 /* Read post dot digits. */
-                int64_t post_dot = 0;
-                auto n = scale;
-                while (n > 0 and is_dec(c)) {
-                    post_dot = 10 * post_dot + c - '0';
-                    step();
-                    n--;
-                }
-                post_dot *= powi(10, n);
+                for (; n > 0 and is_dec(c); --n, step())
+                    append(c - '0');
                 /* Discard further digits */
                 while (is_dec(c)) { step(); }
-                d += d >= 0 ? post_dot : -post_dot;
             }
-            if (not is_end_of_cell()) {
+            for (; n > 0; --n)
+                append(0);
+            if (not has_digits or not is_end_of_cell()) {
                 diag.e(pos) << "WARNING: Unexpected characters encountered in a decimal.\n";
                 tup.null(col_idx);
                 while (not is_end_of_cell()) step();
                 return;
             }
-            if (is_neg) d = -d;
-            tup.set(col_idx, d);
+            if (not in_range) {
+                diag.e(pos) << "WARNING: Decimal is out of range of " << ty << ".\n";
+                tup.null(col_idx);
+                return;
+            }
+            tup.set(col_idx, int64_t(is_neg ? -d : d));
             break;
         }
 
@@ -438,13 +446,3 @@ void DSVReader::operator()(Const<ErrorType>&) { M_unreachable("invalid type"); }
 void DSVReader::operator()(Const<NoneType>&) { M_unreachable("invalid type"); }
 void DSVReader::operator()(Const<Bitmap>&) { M_unreachable("invalid type"); }
 void DSVReader::operator()(Const<FnType>&) { M_unreachable("invalid type"); }
-
-int64_t DSVReader::read_unsigned_int()
-{
-    int64_t i = 0;
-    while (is_dec(c)) {
-        i = 10 * i + c - '0';
-        step();
-    }
-    return i;
-}
-- 
2.43.0


From 97a23cd09eadaa0428135717c5c6e28651110371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:25 +0000
Subject: [PATCH 47/67] fix: Timer measures with a clock that is adjusted

---
 include/mutable/util/Timer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mutable/util/Timer.hpp b/include/mutable/util/Timer.hpp
index c1a4e6d..f5c7332 100644
--- a/include/mutable/util/Timer.hpp
+++ b/include/mutable/util/Timer.hpp
@@ -36,7 +36,7 @@ struct Timer
         void stop() { timer_.stop(id_); }
     };
 
-    using clock = std::chrono::high_resolution_clock;
+    using clock = std::chrono::steady_clock; ///< must not be affected by changes of the system's time
     using duration = clock::duration;
     using time_point = clock::time_point;
 
-- 
2.43.0


From 24b6b3f9b51b6726cb75f5c4894f720af50e98cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:25 +0000
Subject: [PATCH 48/67] fix: a stopped TimingProcess stops a restarted
 Measurement when it is destroyed

---
 include/mutable/util/Timer.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/mutable/util/Timer.hpp b/include/mutable/util/Timer.hpp
index f5c7332..1372ad2 100644
--- a/include/mutable/util/Timer.hpp
+++ b/include/mutable/util/Timer.hpp
@@ -23,17 +23,17 @@ struct Timer
         private:
         Timer &timer_; ///< the `Timer` instance
         std::size_t id_; ///< the ID of the `Measurement`
+        bool is_running_ = true; ///< after stopping, the `Measurement` may be restarted by others or removed
 
         TimingProcess(Timer &timer, std::size_t index) : timer_(timer), id_(index) { }
 
         public:
         ~TimingProcess() {
-            auto &M = timer_.get(id_);
-            if (not M.has_ended())
+            if (is_running_ and not timer_.get(id_).has_ended())
                 timer_.stop(id_);
         }
 
-        void stop() { timer_.stop(id_); }
+        void stop() { timer_.stop(id_); is_running_ = false; }
     };
 
     using clock = std::chrono::steady_clock; ///< must not be affected by changes of the system's time
-- 
2.43.0


From 6f890a0462a745bf49fc005e5296828c9f996a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:34 +0000
Subject: [PATCH 49/67] fix: a failing bulkload of an index discards all
 measurements

---
 src/storage/Index.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/storage/Index.cpp b/src/storage/Index.cpp
index a280611..a6d1b58 100644
--- a/src/storage/Index.cpp
+++ b/src/storage/Index.cpp
@@ -58,7 +58,11 @@ template<typename Key>
 void ArrayIndex<Key>::bulkload(const Table &table, const Schema &key_schema)
 {
     /* XXX: Disable timer during execution to not print times for query that is performed as part of bulkloading. */
-    const auto &old_timer = std::exchange(Catalog::Get().timer(), Timer());
+    struct DisableTimer
+    {
+        Timer old = std::exchange(Catalog::Get().timer(), Timer());
+        ~DisableTimer() { Catalog::Get().timer() = std::move(old); } // also if bulkloading fails
+    } disable_timer;
 
     /* Check that key schema contains a single entry. */
     if (key_schema.num_entries() != 1)
@@ -138,9 +142,6 @@ void ArrayIndex<Key>::bulkload(const Table &table, const Schema &key_schema)
 
     /* Finalize index. */
     finalize();
-
-    /* XXX: Reenable timer. */
-    std::exchange(Catalog::Get().timer(), std::move(old_timer));
 }
 
 template<typename Key>
-- 
2.43.0


From aac5956b2abf7ad2c19e5b019e44d61f84fc11bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:33 +0000
Subject: [PATCH 50/67] fix: clients of --times report and clear the
 measurements of other clients' commands

---
 src/catalog/SerialScheduler.cpp | 13 +++++++++++++
 src/mutable.cpp                 | 11 -----------
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/catalog/SerialScheduler.cpp b/src/catalog/SerialScheduler.cpp
index 7d8c969..bba923b 100644
--- a/src/catalog/SerialScheduler.cpp
+++ b/src/catalog/SerialScheduler.cpp
@@ -1,6 +1,9 @@
 #include "catalog/SerialScheduler.hpp"
 #include "parse/Sema.hpp"
+#include <chrono>
+#include <iostream>
 #include <mutable/mutable.hpp>
+#include <mutable/Options.hpp>
 
 
 using namespace m;
@@ -164,6 +167,16 @@ void SerialScheduler::schedule_thread()
         } catch (const std::exception &e) {
             diag.err() << e.what() << std::endl; // the command failed, but the worker must go on
         }
+        if (Options::Get().times) {
+            /* Report the times of this command before other commands, potentially of other clients, are measured. */
+            using namespace std::chrono;
+            for (const auto &M : C.timer()) {
+                if (M.is_finished())
+                    std::cout << M.name << ": " << duration_cast<microseconds>(M.duration()).count() / 1e3 << '\n';
+            }
+            std::cout.flush();
+            C.timer().clear();
+        }
         promise.set_value(success);
     }
 }
diff --git a/src/mutable.cpp b/src/mutable.cpp
index e6373cb..958ab36 100644
--- a/src/mutable.cpp
+++ b/src/mutable.cpp
@@ -75,19 +75,8 @@ void m::process_stream(std::istream &in, const char *filename, Diagnostic diag)
     while (parser.token()) {
         bool err = false;
         diag.clear();
-        Timer &timer = C.timer();
         auto ast = parser.parse();
         C.scheduler().autocommit(std::move(ast), diag);
-
-        if (Options::Get().times) {
-            using namespace std::chrono;
-            for (const auto &M : timer) {
-                if (M.is_finished())
-                    std::cout << M.name << ": " << duration_cast<microseconds>(M.duration()).count() / 1e3 << '\n';
-            }
-            std::cout.flush();
-            timer.clear();
-        }
     }
 
     std::cout.flush();
-- 
2.43.0


From de07bd1a0f7504e0b14b1e69ca646c2813a567fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:57 +0000
Subject: [PATCH 51/67] fix: Parser: recovery must not consume the semicolon
 and the next statement

---
 src/parse/Parser.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parse/Parser.hpp b/src/parse/Parser.hpp
index 13a3800..a50dfa7 100644
--- a/src/parse/Parser.hpp
+++ b/src/parse/Parser.hpp
@@ -67,8 +67,11 @@ struct M_EXPORT Parser
         return false;
     }
 
-    /** Consumes tokens until the first occurence of a token in the follow set \p FS is found. */
-    void recover(const follow_set_t &FS) { while (token() and not FS[token().type]) consume(); }
+    /** Consumes tokens until the first occurence of a token in the follow set \p FS is found.  Never consumes the
+     * semicolon terminating the statement, to not discard parts of the next statement. */
+    void recover(const follow_set_t &FS) {
+        while (token() and token() != TK_SEMICOL and not FS[token().type]) consume();
+    }
 
     /** Consumes tokens until the first occurence of a token in the follow set \p FS is found. Constructs an object of
      * type `T` on \p start and returns a unique pointer to it.  Here, type `T` is either `ErrorStmt` or `ErrorClause`.
-- 
2.43.0


From 6389efbe484a4f8e7c1c5cf639e3edb064bfb607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:57 +0000
Subject: [PATCH 52/67] fix: Lexer: a malformed date must be reported

---
 src/lex/Lexer.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lex/Lexer.cpp b/src/lex/Lexer.cpp
index b9ea3fb..f6beaa4 100644
--- a/src/lex/Lexer.cpp
+++ b/src/lex/Lexer.cpp
@@ -235,17 +235,17 @@ Token Lexer::read_date_or_datetime()
 #define DIGITS(num) for (auto i = 0; i < num; ++i) if (is_dec(c_)) push(); else invalid = true;
     accept('-'); // for years BC
     DIGITS(4); // year
-    invalid &= accept('-');
+    invalid |= not accept('-');
     DIGITS(2); // month
-    invalid &= accept('-');
+    invalid |= not accept('-');
     DIGITS(2); // day
 
     if (accept(' ')) {
         datetime = true;
         DIGITS(2) // hours
-        invalid &= accept(':');
+        invalid |= not accept(':');
         DIGITS(2); // minutes
-        invalid &= accept(':');
+        invalid |= not accept(':');
         DIGITS(2); // seconds
     }
 #undef DIGITS
-- 
2.43.0


From 221ff26a786a0689f2dd7c9c8e5f533a566a8cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:57 +0000
Subject: [PATCH 53/67] fix: Parser: a missing SELECT must not swallow the next
 token

---
 src/parse/Parser.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/parse/Parser.cpp b/src/parse/Parser.cpp
index 9f4e1b0..72c51dc 100644
--- a/src/parse/Parser.cpp
+++ b/src/parse/Parser.cpp
@@ -752,10 +752,8 @@ std::unique_ptr<Clause> Parser::parse_SelectClause()
     Token start = token();
 
     /* 'SELECT' */
-    if (not expect(TK_Select)) {
-        consume();
+    if (not expect(TK_Select))
         return recover<ErrorClause>(std::move(start), follow_set_SELECT_CLAUSE);
-    }
 
     /* ( '*' | expression [ [ 'AS' ] identifier ] ) */
     Token select_all = Token::CreateArtificial();
-- 
2.43.0


From 6436de20829ce421f3a3dc8fd21f70021264e891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:57 +0000
Subject: [PATCH 54/67] fix: Parser: ~ and NOT are not binary operators

---
 src/parse/Parser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parse/Parser.cpp b/src/parse/Parser.cpp
index 72c51dc..5a6d539 100644
--- a/src/parse/Parser.cpp
+++ b/src/parse/Parser.cpp
@@ -1044,6 +1044,7 @@ std::unique_ptr<Expr> Parser::parse_Expr(const int precedence_lhs, std::unique_p
         Token op = token();
         int p = get_precedence(op);
         if (precedence_lhs > p) return lhs; // left operator has higher precedence_lhs
+        if (op == TK_TILDE or op == TK_Not) return lhs; // these have a precedence but are not binary operators
         consume();
 
         auto rhs = parse_Expr(p + 1);
-- 
2.43.0


From c8ce57a172896496f41e6944c665104b8badcc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:57 +0000
Subject: [PATCH 55/67] fix: SerialScheduler: do not analyze commands with
 syntactic errors

---
 src/catalog/SerialScheduler.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/catalog/SerialScheduler.cpp b/src/catalog/SerialScheduler.cpp
index bba923b..611aca9 100644
--- a/src/catalog/SerialScheduler.cpp
+++ b/src/catalog/SerialScheduler.cpp
@@ -155,8 +155,11 @@ void SerialScheduler::schedule_thread()
             bool err = diag.num_errors() > 0; // parser errors
 
             diag.clear();
-            auto cmd = sema.analyze(std::move(ast));
-            err |= diag.num_errors() > 0; // sema errors
+            std::unique_ptr<DatabaseCommand> cmd;
+            if (not err) { // the semantic analysis expects well-formed commands
+                cmd = sema.analyze(std::move(ast));
+                err = diag.num_errors() > 0; // sema errors
+            }
 
             M_insist(err or cmd, "when there are no errors, Sema must have returned a command");
             if (not err and cmd) {
-- 
2.43.0


From 5aa453bd87b34926c52552197dcdebb979cb063e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:57 +0000
Subject: [PATCH 56/67] fix: Sema: calling anything but a function crashes

---
 src/parse/Sema.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parse/Sema.cpp b/src/parse/Sema.cpp
index baab632..d82b175 100644
--- a/src/parse/Sema.cpp
+++ b/src/parse/Sema.cpp
@@ -507,8 +507,8 @@ void Sema::operator()(FnApplicationExpr &e)
     /* Analyze function name. */
     auto d = cast<Designator>(e.fn.get());
     if (not d or not d->is_identifier()) {
-        diag.e(d->attr_name.pos) << *d << " is not a valid function.\n";
-        d->type_ = e.type_ = Type::Get_Error();
+        diag.e(d ? d->attr_name.pos : e.tok.pos) << *e.fn << " is not a valid function.\n";
+        e.fn->type_ = e.type_ = Type::Get_Error();
         return;
     }
     M_insist(bool(d));
-- 
2.43.0


From 473dab1ff7bf1d427aa3440d789e5555070c0844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:57 +0000
Subject: [PATCH 57/67] fix: Sema: NULL or an erroneous expression in a nested
 query crashes

---
 src/parse/Sema.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/parse/Sema.cpp b/src/parse/Sema.cpp
index d82b175..76ff19c 100644
--- a/src/parse/Sema.cpp
+++ b/src/parse/Sema.cpp
@@ -356,6 +356,10 @@ void Sema::operator()(Designator &e)
         const Type * operator()(const Expr *expr) const { return expr->type_; }
     };
     const PrimitiveType *pt = cast<const PrimitiveType>(std::visit(get_type(), e.target_));
+    if (not pt) { // the referenced source is erroneous, and so is this designator
+        e.type_ = Type::Get_Error();
+        return;
+    }
     e.type_ = pt;
 
     if (not is_result)
@@ -1239,8 +1243,15 @@ void Sema::operator()(FromClause &c)
             /* Add the results of the nested statement to the list of sources. */
             auto res = Ctx.sources.emplace(src.alias.text, std::make_pair(std::move(results), source_counter++));
             /* Convert scalar results to vectorials. */
-            for (auto &[_, result] : inner_ctx.results)
-                result.expr().type_ = as<const PrimitiveType>(result.expr().type())->as_vectorial();
+            for (auto &[_, result] : inner_ctx.results) {
+                auto &expr = result.expr();
+                if (auto pt = cast<const PrimitiveType>(expr.type())) {
+                    expr.type_ = pt->as_vectorial();
+                } else if (not expr.type()->is_error()) { // e.g. `NULL`
+                    diag.e(expr.tok.pos) << "The type of " << expr << " in a nested query cannot be determined.\n";
+                    expr.type_ = Type::Get_Error();
+                }
+            }
             /* Check if the table name is already in use in other contexts. */
             bool unique = true;
             for (std::size_t i = 0; i < contexts_.size() - 1; ++i) {
-- 
2.43.0


From d22822f35eb27a8b114d83e5985a23e9e21686fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:02 +0000
Subject: [PATCH 58/67] fix: Interpreter: AVG must not count NULL

---
 src/backend/Interpreter.cpp | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/backend/Interpreter.cpp b/src/backend/Interpreter.cpp
index 16a1afb..1c99fcb 100644
--- a/src/backend/Interpreter.cpp
+++ b/src/backend/Interpreter.cpp
@@ -822,6 +822,7 @@ struct AggregationData : OperatorData
 {
     Pipeline pipeline;
     Tuple aggregates;
+    std::vector<unsigned> num_not_null; ///< for each aggregate, the running count of arguments that are not NULL
     std::vector<StackMachine> compute_aggregate_arguments; ///< StackMachines to compute the argumetns of aggregations
     std::vector<Tuple> args; ///< tuple used to hold the computed arguments
 
@@ -831,9 +832,8 @@ struct AggregationData : OperatorData
         std::vector<const Type*> types;
         for (auto &e : op.schema())
             types.push_back(e.type);
-        types.push_back(Type::Get_Integer(Type::TY_Scalar, 8)); // add nth_tuple counter
         aggregates = Tuple(std::move(types));
-        aggregates.set(op.schema().num_entries(), 0L); // initialize running count
+        num_not_null.resize(op.aggregates().size(), 0U); // initialize running counts
 
         for (auto agg : op.aggregates()) {
             auto &fe = as<const ast::FnApplicationExpr>(agg.get());
@@ -890,9 +890,9 @@ struct HashBasedGroupingData : GroupingData
         }
     };
 
-    /** A map of `Tuple`s, where the key part is used for hashing and comparison.  The mapped to value holds the count
-     * of tuples that belong to this group. */
-    std::unordered_map<Tuple, unsigned, hasher, equals> groups;
+    /** A map of `Tuple`s, where the key part is used for hashing and comparison.  The mapped to value holds, for each
+     * aggregate, the count of tuples of this group with an argument that is not NULL. */
+    std::unordered_map<Tuple, std::vector<unsigned>, hasher, equals> groups;
 
     HashBasedGroupingData(const GroupingOperator &op)
         : GroupingData(op)
@@ -1237,7 +1237,6 @@ void Pipeline::operator()(const GroupingOperator &op)
         const std::size_t key_size = op.group_by().size();
 
         Tuple &group = const_cast<Tuple&>(entry.first);
-        const unsigned nth_tuple = ++entry.second;
 
         /* Add this tuple to its group by computing the aggregates. */
         for (std::size_t i = 0, end = op.aggregates().size(); i != end; ++i) {
@@ -1295,7 +1294,7 @@ void Pipeline::operator()(const GroupingOperator &op)
                     if (aggregate_arguments.is_null(0)) continue; // skip NULL
                     /* Compute AVG as iterative mean as described in Knuth, The Art of Computer Programming Vol 2,
                      * section 4.2.2. */
-                    val.as_d() += (aggregate_arguments[0].as_d() - val.as_d()) / nth_tuple;
+                    val.as_d() += (aggregate_arguments[0].as_d() - val.as_d()) / ++entry.second[i];
                     break;
                 }
 
@@ -1350,7 +1349,7 @@ void Pipeline::operator()(const GroupingOperator &op)
         if (it == groups.end()) {
             /* Initialize the group's aggregate to NULL.  This will be overwritten by the neutral element w.r.t.
              * the aggregation function. */
-            it = groups.emplace_hint(it, std::move(key), 0);
+            it = groups.emplace_hint(it, std::move(key), std::vector<unsigned>(op.aggregates().size(), 0U));
             key = Tuple(op.schema());
         }
         perform_aggregation(*it, tuple, *data);
@@ -1360,10 +1359,8 @@ void Pipeline::operator()(const GroupingOperator &op)
 void Pipeline::operator()(const AggregationOperator &op)
 {
     auto data = as<AggregationData>(op.data());
-    auto &nth_tuple = data->aggregates[op.schema().num_entries()].as_i();
 
     for (auto &tuple : block_) {
-        nth_tuple += 1UL;
         for (std::size_t i = 0, end = op.aggregates().size(); i != end; ++i) {
             auto &aggregate_arguments = data->args[i];
             Tuple *args[] = { &aggregate_arguments, &tuple };
@@ -1405,7 +1402,7 @@ void Pipeline::operator()(const AggregationOperator &op)
                     if (aggregate_arguments.is_null(0)) continue; // skip NULL
                     /* Compute AVG as iterative mean as described in Knuth, The Art of Computer Programming Vol 2,
                      * section 4.2.2. */
-                    val.as_d() += (aggregate_arguments[0].as_d() - val.as_d()) / nth_tuple;
+                    val.as_d() += (aggregate_arguments[0].as_d() - val.as_d()) / ++data->num_not_null[i];
                     break;
                 }
 
-- 
2.43.0


From 6c3894ccb2b03b3b7c8036b7ccdfc015287a9b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:17 +0000
Subject: [PATCH 59/67] fix: Interpreter: COUNT of a string, date, or datetime
 aborts

---
 src/backend/Interpreter.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/backend/Interpreter.cpp b/src/backend/Interpreter.cpp
index 1c99fcb..7e9e7ce 100644
--- a/src/backend/Interpreter.cpp
+++ b/src/backend/Interpreter.cpp
@@ -808,7 +808,8 @@ struct GroupingData : OperatorData
             std::vector<const Type*> arg_types;
             for (auto &arg : fe.args) {
                 sm.emit(*arg, 1);
-                sm.emit_Cast(agg.get().type(), arg->type()); // cast argument type to aggregate type, e.g. f32 to f64 for SUM
+                if (fe.get_function().fnid != Function::FN_COUNT) // COUNT takes arguments of any type
+                    sm.emit_Cast(agg.get().type(), arg->type()); // cast argument type to aggregate type, e.g. f32 to f64 for SUM
                 sm.emit_St_Tup(0, arg_idx++, arg->type());
                 arg_types.push_back(arg->type());
             }
@@ -842,9 +843,14 @@ struct AggregationData : OperatorData
             std::vector<const Type*> arg_types;
             for (auto &arg : fe.args) {
                 sm.emit(*arg, 1);
-                sm.emit_Cast(agg.get().type(), arg->type()); // cast argument type to aggregate type, e.g. f32 to f64 for SUM
-                sm.emit_St_Tup(0, arg_idx++, agg.get().type()); // store casted argument of aggregate type to tuple
-                arg_types.push_back(agg.get().type());
+                if (fe.get_function().fnid == Function::FN_COUNT) { // COUNT takes arguments of any type
+                    sm.emit_St_Tup(0, arg_idx++, arg->type());
+                    arg_types.push_back(arg->type());
+                } else {
+                    sm.emit_Cast(agg.get().type(), arg->type()); // cast argument type to aggregate type, e.g. f32 to f64 for SUM
+                    sm.emit_St_Tup(0, arg_idx++, agg.get().type()); // store casted argument of aggregate type to tuple
+                    arg_types.push_back(agg.get().type());
+                }
             }
             args.emplace_back(Tuple(arg_types));
             compute_aggregate_arguments.emplace_back(std::move(sm));
-- 
2.43.0


From 30ab1871a9798a7ce38f33b0f888cc6efa0e868d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:39 +0000
Subject: [PATCH 60/67] fix: Interpreter: hash join on keys of different types
 aborts

---
 src/backend/Interpreter.cpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/backend/Interpreter.cpp b/src/backend/Interpreter.cpp
index 7e9e7ce..67a0ed7 100644
--- a/src/backend/Interpreter.cpp
+++ b/src/backend/Interpreter.cpp
@@ -720,10 +720,16 @@ struct SimpleHashJoinData : JoinData
             auto first = binary->lhs.get();
             auto second = binary->rhs.get();
             M_insist(is_comparable(first->type(), second->type()), "the two sides of a comparison should be comparable");
-            M_insist(first->type() == second->type(), "operand types must be equal");
 
-            /* Add type to general key schema. */
-            key_schema.add(C.pool("key"), first->type());
+            /* Add type to general key schema.  The operands may be of different type, e.g. INT(2) and INT(4). */
+            const Type *key_type = first->type();
+            if (auto n_first = cast<const Numeric>(first->type())) {
+                key_type = arithmetic_join(n_first, as<const Numeric>(second->type()));
+            } else if (auto cs_first = cast<const CharacterSequence>(first->type())) {
+                auto cs_second = as<const CharacterSequence>(second->type());
+                key_type = cs_first->length < cs_second->length ? cs_second : cs_first;
+            }
+            key_schema.add(C.pool("key"), key_type);
 
             /*----- Decide which side of the join the predicate belongs to. -----*/
             auto required_by_first = first->get_required();
@@ -758,16 +764,22 @@ struct SimpleHashJoinData : JoinData
     void load_build_key(const Schema &pipeline_schema) {
         for (std::size_t i = 0; i != exprs.size(); ++i) {
             const ast::Expr *expr = exprs[i].first;
+            const Type *key_type = key_schema[i].type;
             build_key.emit(*expr, pipeline_schema, 1); // compile expr
-            build_key.emit_St_Tup(0, i, expr->type()); // write result to index i
+            if (key_type->is_numeric())
+                build_key.emit_Cast(key_type, expr->type()); // cast to type of key
+            build_key.emit_St_Tup(0, i, key_type); // write result to index i
         }
     }
 
     void load_probe_key(const Schema &pipeline_schema) {
         for (std::size_t i = 0; i != exprs.size(); ++i) {
             const ast::Expr *expr = exprs[i].second;
+            const Type *key_type = key_schema[i].type;
             probe_key.emit(*expr, pipeline_schema, 1); // compile expr
-            probe_key.emit_St_Tup(0, i, expr->type()); // write result to index i
+            if (key_type->is_numeric())
+                probe_key.emit_Cast(key_type, expr->type()); // cast to type of key
+            probe_key.emit_St_Tup(0, i, key_type); // write result to index i
         }
     }
 };
-- 
2.43.0


From 3bc3d7a45d138498b90685a8d8a203650ce9f3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:39 +0000
Subject: [PATCH 61/67] fix: Optimizer: an attribute occurring twice in ORDER
 BY must not be projected twice

---
 src/IR/Optimizer.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/IR/Optimizer.cpp b/src/IR/Optimizer.cpp
index 406e65b..c6fc8b3 100644
--- a/src/IR/Optimizer.cpp
+++ b/src/IR/Optimizer.cpp
@@ -127,6 +127,11 @@ Optimizer::compute_projections_required_for_order_by(const std::vector<projectio
                 if (not alias.has_value() and d == expr.get())
                     return; // found
             }
+            /*----- Find `d` in the already collected projections. -----*/
+            for (auto &[expr, _] : required_projections) {
+                if (d == expr.get())
+                    return; // found
+            }
             required_projections.emplace_back(d, ThreadSafePooledOptionalString{});
         },
         [&](const ast::FnApplicationExpr &fn) -> void {
@@ -135,6 +140,11 @@ Optimizer::compute_projections_required_for_order_by(const std::vector<projectio
                 if (not alias.has_value() and fn == expr.get())
                     throw visit_skip_subtree(); // found
             }
+            /*----- Find `fn` in the already collected projections. -----*/
+            for (auto &[expr, _] : required_projections) {
+                if (fn == expr.get())
+                    throw visit_skip_subtree(); // found
+            }
             required_projections.emplace_back(fn, ThreadSafePooledOptionalString{});
             throw visit_skip_subtree();
         },
-- 
2.43.0


From a65a4b5170bdc3d89a61b736417888f04012a205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:39 +0000
Subject: [PATCH 62/67] fix: Schema: nested query with HAVING is refused with
 'type mismatch'

---
 include/mutable/catalog/Schema.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/mutable/catalog/Schema.hpp b/include/mutable/catalog/Schema.hpp
index 14eeb5a..d1cfcfb 100644
--- a/include/mutable/catalog/Schema.hpp
+++ b/include/mutable/catalog/Schema.hpp
@@ -258,10 +258,17 @@ inline Schema operator+(const Schema &left, const Schema &right)
 inline Schema operator&(const Schema &left, const Schema &right)
 {
     Schema res;
+    /* A scalar result of a nested query, e.g. a grouping key, is vectorial to the outer query. */
+    auto same_type = [](const Type *first, const Type *second) {
+        if (first == second) return true;
+        auto pt_first = cast<const PrimitiveType>(first);
+        auto pt_second = cast<const PrimitiveType>(second);
+        return pt_first and pt_second and pt_first->as_vectorial() == pt_second->as_vectorial();
+    };
     for (auto &e : left) {
         auto it = right.find(e.id);
         if (it != right.end()) {
-            if (e.type != it->type)
+            if (not same_type(e.type, it->type))
                 throw invalid_argument("type mismatch");
             res.add(e.id, e.type, e.constraints | it->constraints); // merge constraints from both
         }
-- 
2.43.0


From fa086e8cc9064bf60c8bd79784cfff44dfb6268f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:28 +0000
Subject: [PATCH 63/67] fix: Optimizer: post-ordering projection re-evaluates
 expressions without their inputs

---
 src/IR/Optimizer.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/IR/Optimizer.cpp b/src/IR/Optimizer.cpp
index c6fc8b3..f035a15 100644
--- a/src/IR/Optimizer.cpp
+++ b/src/IR/Optimizer.cpp
@@ -486,6 +486,17 @@ std::unique_ptr<Producer> Optimizer::optimize_plan(const QueryGraph &G, std::uni
                                                             std::move(name), expr.get().type(), &expr.get());
                 adapted_projections.emplace_back(*d, ThreadSafePooledOptionalString{});
                 created_exprs_.emplace_back(std::move(d));
+            } else if (auto required = expr.get().get_required(); not is<const Designator>(expr.get()) and
+                                                                  (required & plan->schema()) != required) {
+                /* The expression was evaluated by the original projection and its inputs are not available anymore.
+                 * Access the result by its name. */
+                std::ostringstream oss;
+                oss << expr.get();
+                Token name(expr.get().tok.pos, Catalog::Get().pool(oss.str().c_str()), TK_IDENTIFIER);
+                auto d = std::make_unique<const Designator>(Token::CreateArtificial(), Token::CreateArtificial(),
+                                                            std::move(name), expr.get().type(), &expr.get());
+                adapted_projections.emplace_back(*d, ThreadSafePooledOptionalString{});
+                created_exprs_.emplace_back(std::move(d));
             } else {
                 adapted_projections.emplace_back(expr, ThreadSafePooledOptionalString{});
             }
-- 
2.43.0


From 0b0fcbdeb5375ffb24a2c072bec2d4271f28565d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:00 +0000
Subject: [PATCH 64/67] fix: Interpreter: operators passing on tuples unchanged
 declare a different schema

---
 src/backend/Interpreter.cpp | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/backend/Interpreter.cpp b/src/backend/Interpreter.cpp
index 67a0ed7..50bc8b8 100644
--- a/src/backend/Interpreter.cpp
+++ b/src/backend/Interpreter.cpp
@@ -559,6 +559,19 @@ StackMachine Interpreter::compile_store(const Schema &tuple_schema, void *addres
 
 namespace {
 
+/** Returns the `Schema` of the tuples that \p op passes on.  Operators that pass on the tuples of their child *unchanged*
+ * may declare only a part of these attributes, and in a different order. */
+const Schema & get_produced_schema(const Producer &op)
+{
+    if (auto filter = cast<const FilterOperator>(&op))
+        return get_produced_schema(*filter->child(0));
+    if (auto limit = cast<const LimitOperator>(&op))
+        return get_produced_schema(*limit->child(0));
+    if (auto sorting = cast<const SortingOperator>(&op))
+        return get_produced_schema(*sorting->child(0));
+    return op.schema();
+}
+
 struct PrintData : OperatorData
 {
     uint32_t num_rows = 0;
@@ -798,7 +811,7 @@ struct GroupingData : OperatorData
 
     GroupingData(const GroupingOperator &op)
         : pipeline(op.schema())
-        , compute_key(op.child(0)->schema())
+        , compute_key(get_produced_schema(*op.child(0)))
     {
         std::ostringstream oss;
 
@@ -816,7 +829,7 @@ struct GroupingData : OperatorData
         for (auto agg : op.aggregates()) {
             auto &fe = as<const ast::FnApplicationExpr>(agg.get());
             std::size_t arg_idx = 0;
-            StackMachine sm(op.child(0)->schema());
+            StackMachine sm(get_produced_schema(*op.child(0)));
             std::vector<const Type*> arg_types;
             for (auto &arg : fe.args) {
                 sm.emit(*arg, 1);
@@ -851,7 +864,7 @@ struct AggregationData : OperatorData
         for (auto agg : op.aggregates()) {
             auto &fe = as<const ast::FnApplicationExpr>(agg.get());
             std::size_t arg_idx = 0;
-            StackMachine sm(op.child(0)->schema());
+            StackMachine sm(get_produced_schema(*op.child(0)));
             std::vector<const Type*> arg_types;
             for (auto &arg : fe.args) {
                 sm.emit(*arg, 1);
@@ -1106,7 +1119,7 @@ void Pipeline::operator()(const JoinOperator &op)
                 data->load_build_key(this->schema());
                 data->emit_load_attrs(this->schema());
             }
-            const auto &tuple_schema = op.child(0)->schema();
+            const auto &tuple_schema = this->schema();
             for (auto &t : block_) {
                 args[1] = &t;
                 data->build_key(args);
@@ -1199,7 +1212,7 @@ void Pipeline::operator()(const JoinOperator &op)
             }
         } else {
             /* This is not the right-most child.  Collect its produced tuples in a buffer. */
-            const auto &tuple_schema = op.child(data->active_child)->schema();
+            const auto &tuple_schema = this->schema();
             if (data->buffer_schemas.size() <= data->active_child) {
                 data->buffer_schemas.emplace_back(this->schema()); // save the schema of the current pipeline
                 data->emit_load_attrs(this->schema());
-- 
2.43.0


From 1a6cd4f7e8202c66d3c04d54c6d5ad477f7d7d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:02 +0000
Subject: [PATCH 65/67] fix: Optimizer: a function call in ORDER BY is
 projected instead of its arguments

---
 src/IR/Optimizer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/IR/Optimizer.cpp b/src/IR/Optimizer.cpp
index f035a15..a041594 100644
--- a/src/IR/Optimizer.cpp
+++ b/src/IR/Optimizer.cpp
@@ -115,6 +115,8 @@ Optimizer::compute_projections_required_for_order_by(const std::vector<projectio
     /* Collect all required `Designator`s which are not included in the projection. */
     auto get_required_designator = overloaded {
         [&](const ast::Designator &d) -> void {
+            if (not d.type()->is_primitive())
+                return; // avoid non-primitive types, e.g. functions
             if (auto t = std::get_if<const Expr*>(&d.target())) { // refers to another expression?
                 /*----- Find `t` in projections. -----*/
                 for (auto &[expr, _] : projections) {
@@ -135,6 +137,8 @@ Optimizer::compute_projections_required_for_order_by(const std::vector<projectio
             required_projections.emplace_back(d, ThreadSafePooledOptionalString{});
         },
         [&](const ast::FnApplicationExpr &fn) -> void {
+            if (not fn.get_function().is_aggregate())
+                return; // evaluated when sorting, requires only its arguments
             /*----- Find `fn` in projections. -----*/
             for (auto &[expr, alias] : projections) {
                 if (not alias.has_value() and fn == expr.get())
-- 
2.43.0


From c5be84311a6c14fce2c9120d77ae7e1fed4db862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:02 +0000
Subject: [PATCH 66/67] fix: SchemaMinimizer: plans with an aggregation or
 projection nobody uses cannot be minimized twice

---
 src/IR/Operator.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/IR/Operator.cpp b/src/IR/Operator.cpp
index 3026f4e..2fb6375 100644
--- a/src/IR/Operator.cpp
+++ b/src/IR/Operator.cpp
@@ -445,8 +445,7 @@ void SchemaMinimizer::operator()(ProjectionOperator &op)
         }
     }
     M_insist(pos_out <= op.projections().size());
-    const auto &dummy = op.projections()[0];
-    op.projections().resize(pos_out, dummy);
+    op.projections().erase(op.projections().begin() + pos_out, op.projections().end()); // discard unrequired projections
 
     op.schema() = std::move(ours);
     required = std::move(required_by_op);
@@ -508,7 +507,6 @@ void SchemaMinimizer::operator()(GroupingOperator &op)
 
 void SchemaMinimizer::operator()(AggregationOperator &op)
 {
-    M_insist(not op.aggregates().empty());
     Catalog &C = Catalog::Get();
     std::ostringstream oss;
 
@@ -532,8 +530,7 @@ void SchemaMinimizer::operator()(AggregationOperator &op)
         }
     }
     M_insist(pos_out <= op.aggregates().size());
-    const ast::FnApplicationExpr &dummy = op.aggregates()[0].get();
-    op.aggregates().resize(pos_out, dummy); // discard unrequired aggregates
+    op.aggregates().erase(op.aggregates().begin() + pos_out, op.aggregates().end()); // discard unrequired aggregates
 
     op.schema() = std::move(ours);
     required = std::move(required_by_op);
-- 
2.43.0


From 416687c4f093260e2b7708a0b739376cd1162462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:18 +0000
Subject: [PATCH 67/67] fix: Interpreter: hash join must accept a negated
 inequality

---
 src/backend/Interpreter.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/backend/Interpreter.cpp b/src/backend/Interpreter.cpp
index 50bc8b8..f32aed8 100644
--- a/src/backend/Interpreter.cpp
+++ b/src/backend/Interpreter.cpp
@@ -726,10 +726,9 @@ struct SimpleHashJoinData : JoinData
         for (auto &clause : pred) {
             M_insist(clause.size() == 1, "invalid predicate for simple hash join");
             auto &literal = clause[0];
-            M_insist(not literal.negative(), "invalid predicate for simple hash join");
+            M_insist(literal.is_equi(), "invalid predicate for simple hash join"); // `A.x = B.y` or `NOT A.x != B.y`
             auto &expr = literal.expr();
             auto binary = as<const ast::BinaryExpr>(&expr);
-            M_insist(binary->tok == TK_EQUAL);
             auto first = binary->lhs.get();
             auto second = binary->rhs.get();
             M_insist(is_comparable(first->type(), second->type()), "the two sides of a comparison should be comparable");
-- 
2.43.0

