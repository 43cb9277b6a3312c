From f845fad9f0d3b1cde6701fde951347828c645a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:58 +0000
Subject: [PATCH 01/30] fix: fifo_paged_memory_resource::deallocate_before
 released live pages when the checkpoint's page was already gone

A checkpoint taken more than once at the same position (e.g. fifo_record_store records without
variable-length data) was looked up by page address only. When its page had already been released by
an earlier call, all pages acquired since were released although they were in use. Identify the page
of a checkpoint by its serial number and ignore checkpoints whose page is already released.
---
 .../memory/fifo_paged_memory_resource.cpp     | 22 +++++++++++--------
 .../memory/fifo_paged_memory_resource.h       |  4 ++++
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/jogasaki/memory/fifo_paged_memory_resource.cpp b/src/jogasaki/memory/fifo_paged_memory_resource.cpp
index 87539c7..acda6fe 100644
--- a/src/jogasaki/memory/fifo_paged_memory_resource.cpp
+++ b/src/jogasaki/memory/fifo_paged_memory_resource.cpp
@@ -47,16 +47,17 @@ fifo_paged_memory_resource::checkpoint fifo_paged_memory_resource::get_checkpoin
         return { nullptr, 0 };
     }
     auto& current = pages_.back();
-    return { current.head().address(), current.upper_bound_offset() };
+    return { current.head().address(), current.upper_bound_offset(), front_serial_ + pages_.size() - 1 };
 }
 
 void fifo_paged_memory_resource::deallocate_before(fifo_paged_memory_resource::checkpoint const& point) {
     if (point.head_ == nullptr) {
         return;
     }
-    while (!pages_.empty()) {
+    // do nothing if the page of the checkpoint is already released - then everything before it has been released
+    while (!pages_.empty() && front_serial_ <= point.serial_) {
         auto&& page = pages_.front();
-        if (page.head().address() == point.head_) {
+        if (front_serial_ == point.serial_) {
             // LB <= offset <= UB
             if (point.offset_ < page.lower_bound_offset()
                 || point.offset_ > page.upper_bound_offset()) {
@@ -64,13 +65,11 @@ void fifo_paged_memory_resource::deallocate_before(fifo_paged_memory_resource::c
             }
             page.lower_bound_offset(point.offset_);
             if (page.empty()) {
-                page_pool_->release_page(page.head());
-                pages_.pop_front();
+                release_front_page();
             }
             break;
         }
-        page_pool_->release_page(page.head());
-        pages_.pop_front();
+        release_front_page();
     }
 }
 
@@ -115,8 +114,7 @@ void fifo_paged_memory_resource::do_deallocate(void *p, std::size_t bytes, std::
 
     // release if the page is empty
     if (last.empty()) {
-        page_pool_->release_page(last.head());
-        pages_.pop_front();
+        release_front_page();
     }
 }
 
@@ -139,4 +137,10 @@ details::page_allocation_info &fifo_paged_memory_resource::acquire_new_page() {
     return pages_.emplace_back(new_page);
 }
 
+void fifo_paged_memory_resource::release_front_page() {
+    page_pool_->release_page(pages_.front().head());
+    pages_.pop_front();
+    ++front_serial_;
+}
+
 } // namespace jogasaki::memory
diff --git a/src/jogasaki/memory/fifo_paged_memory_resource.h b/src/jogasaki/memory/fifo_paged_memory_resource.h
index 67ba3a1..a4b5383 100644
--- a/src/jogasaki/memory/fifo_paged_memory_resource.h
+++ b/src/jogasaki/memory/fifo_paged_memory_resource.h
@@ -62,6 +62,8 @@ public:
         void* head_;
         /// @private
         std::size_t offset_;
+        /// @private serial number of the page (order of acquisition by the resource)
+        std::size_t serial_{0};
     };
 
     /**
@@ -106,8 +108,10 @@ protected:
 private:
     page_pool *page_pool_{};
     std::deque<details::page_allocation_info> pages_{};
+    std::size_t front_serial_{0};  // serial number of the front page
 
     details::page_allocation_info& acquire_new_page();
+    void release_front_page();
 };
 
 } // namespace jogasaki::memory
-- 
2.43.0


From e6f7395cabe5760c37d8438be9cf1bbc894093fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:19 +0000
Subject: [PATCH 02/30] fix: paged memory resources kept an unused page after
 refusing an oversized request

Two refused requests left two empty pages at the end of the page list, and freeing any earlier block then
aborted the process because the (de)allocation order checks look at the first/last page only.
---
 src/jogasaki/memory/fifo_paged_memory_resource.cpp      | 3 +++
 src/jogasaki/memory/lifo_paged_memory_resource.cpp      | 3 +++
 src/jogasaki/memory/monotonic_paged_memory_resource.cpp | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/jogasaki/memory/fifo_paged_memory_resource.cpp b/src/jogasaki/memory/fifo_paged_memory_resource.cpp
index acda6fe..1fc7f8c 100644
--- a/src/jogasaki/memory/fifo_paged_memory_resource.cpp
+++ b/src/jogasaki/memory/fifo_paged_memory_resource.cpp
@@ -98,6 +98,9 @@ void *fifo_paged_memory_resource::do_allocate(std::size_t bytes, std::size_t ali
         return ptr;
     }
 
+    // give back the page just acquired as nothing has been allocated on it
+    page_pool_->release_page(current.head());
+    pages_.pop_back();
     LOG_LP(ERROR) << "invalid memory request bytes:" << bytes << " alignment:" << alignment;
     throw_exception(std::bad_alloc());
 }
diff --git a/src/jogasaki/memory/lifo_paged_memory_resource.cpp b/src/jogasaki/memory/lifo_paged_memory_resource.cpp
index d845adf..8a5a0b6 100644
--- a/src/jogasaki/memory/lifo_paged_memory_resource.cpp
+++ b/src/jogasaki/memory/lifo_paged_memory_resource.cpp
@@ -105,6 +105,9 @@ void *lifo_paged_memory_resource::do_allocate(std::size_t bytes, std::size_t ali
         return ptr;
     }
 
+    // give back the page just acquired as nothing has been allocated on it
+    release_deallocated_page(current.head());
+    pages_.pop_back();
     LOG_LP(ERROR) << "invalid memory request bytes:" << bytes << " alignment:" << alignment;
     throw_exception(std::bad_alloc());
 }
diff --git a/src/jogasaki/memory/monotonic_paged_memory_resource.cpp b/src/jogasaki/memory/monotonic_paged_memory_resource.cpp
index fc63de2..15e8409 100644
--- a/src/jogasaki/memory/monotonic_paged_memory_resource.cpp
+++ b/src/jogasaki/memory/monotonic_paged_memory_resource.cpp
@@ -66,6 +66,9 @@ void *monotonic_paged_memory_resource::do_allocate(std::size_t bytes, std::size_
         return ptr;
     }
 
+    // give back the page just acquired as nothing has been allocated on it
+    page_pool_->release_page(current.head());
+    pages_.pop_back();
     LOG_LP(ERROR) << "invalid memory request bytes:" << bytes << " alignment:" << alignment;
     throw_exception(std::bad_alloc());
 }
-- 
2.43.0


From ad47aa146e4cab1ffd62fe57ccfe03804566f83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:21 +0000
Subject: [PATCH 03/30] fix: lifo_paged_memory_resource checkpoint on an empty
 page released older live blocks when rewound twice

The page may be released by the first rewind (or by freeing its blocks); rewinding to the same checkpoint
again then dropped every page although blocks allocated before the checkpoint were still in use.
---
 src/jogasaki/memory/lifo_paged_memory_resource.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/jogasaki/memory/lifo_paged_memory_resource.cpp b/src/jogasaki/memory/lifo_paged_memory_resource.cpp
index 8a5a0b6..4d681e6 100644
--- a/src/jogasaki/memory/lifo_paged_memory_resource.cpp
+++ b/src/jogasaki/memory/lifo_paged_memory_resource.cpp
@@ -47,11 +47,13 @@ std::size_t lifo_paged_memory_resource::count_pages() const noexcept {
 }
 
 lifo_paged_memory_resource::checkpoint lifo_paged_memory_resource::get_checkpoint() const noexcept {
-    if (pages_.empty()) {
-        return initial_checkpoint;
+    // use the last non-empty page, as an empty page can be released while the checkpoint is still in use
+    for (auto it = pages_.rbegin(); it != pages_.rend(); ++it) {
+        if (! it->empty()) {
+            return { it->head().address(), it->upper_bound_offset() };
+        }
     }
-    auto& current = pages_.back();
-    return { current.head().address(), current.upper_bound_offset() };
+    return initial_checkpoint;
 }
 
 void lifo_paged_memory_resource::deallocate_after(lifo_paged_memory_resource::checkpoint const& point) {
-- 
2.43.0


From cde34aca4239f13aa02c9d4f6446e19102fe0bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:05 +0000
Subject: [PATCH 04/30] fix: detect_next_encoding looked past the end of the
 text for a truncated multi-byte character

---
 src/jogasaki/executor/function/builtin_scalar_functions.cpp | 6 +++---
 src/jogasaki/utils/utf8_utils.cpp                           | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/jogasaki/executor/function/builtin_scalar_functions.cpp b/src/jogasaki/executor/function/builtin_scalar_functions.cpp
index 88ceaff..7eda14a 100644
--- a/src/jogasaki/executor/function/builtin_scalar_functions.cpp
+++ b/src/jogasaki/executor/function/builtin_scalar_functions.cpp
@@ -989,19 +989,19 @@ static encoding_type detect_next_encoding(std::string_view view, const size_t of
     auto first            = static_cast<unsigned char>(view[offset]);
     if (first <= 0x7FU) { return encoding_type::ASCII_1BYTE; }
     if (first >= 0xC2U && first <= 0xDFU) {
-        return (view.size() >= 2 && is_continuation_byte(view[offset_2nd]))
+        return (offset_2nd < view.size() && is_continuation_byte(view[offset_2nd]))
                    ? encoding_type::UTF8_2BYTE
                    : encoding_type::INVALID;
     }
     if (first >= 0xE0U && first <= 0xEFU) {
-        return (view.size() >= 3 && is_continuation_byte(view[offset_2nd]) &&
+        return (offset_3rd < view.size() && is_continuation_byte(view[offset_2nd]) &&
                    is_continuation_byte(view[offset_3rd]))
                    ? encoding_type::UTF8_3BYTE
                    : encoding_type::INVALID;
     }
     if (first >= 0xF0U && first <= 0xF4U) {
         const auto offset_4th = offset + 3;
-        return (view.size() >= 4 && is_continuation_byte(view[offset_2nd]) &&
+        return (offset_4th < view.size() && is_continuation_byte(view[offset_2nd]) &&
                    is_continuation_byte(view[offset_3rd]) && is_continuation_byte(view[offset_4th]))
                    ? encoding_type::UTF8_4BYTE
                    : encoding_type::INVALID;
diff --git a/src/jogasaki/utils/utf8_utils.cpp b/src/jogasaki/utils/utf8_utils.cpp
index 0e77961..feea7f4 100644
--- a/src/jogasaki/utils/utf8_utils.cpp
+++ b/src/jogasaki/utils/utf8_utils.cpp
@@ -25,18 +25,18 @@ encoding_type detect_next_encoding(std::string_view view, const size_t offset) {
     const auto first      = static_cast<unsigned char>(view[offset]);
     if (first <= 0x7FU) { return encoding_type::ASCII_1BYTE; }
     if (first >= 0xC2U && first <= 0xDFU) {
-        return (size >= 2 && is_continuation_byte(view[offset_2nd])) ? encoding_type::UTF8_2BYTE
+        return (offset_2nd < size && is_continuation_byte(view[offset_2nd])) ? encoding_type::UTF8_2BYTE
                                                                      : encoding_type::INVALID;
     }
     if (first >= 0xE0U && first <= 0xEFU) {
-        return (size >= 3 && is_continuation_byte(view[offset_2nd]) &&
+        return (offset_3rd < size && is_continuation_byte(view[offset_2nd]) &&
                    is_continuation_byte(view[offset_3rd]))
                    ? encoding_type::UTF8_3BYTE
                    : encoding_type::INVALID;
     }
     if (first >= 0xF0U && first <= 0xF4U) {
         const auto offset_4th = offset + 3;
-        return (size >= 4 && is_continuation_byte(view[offset_2nd]) &&
+        return (offset_4th < size && is_continuation_byte(view[offset_2nd]) &&
                    is_continuation_byte(view[offset_3rd]) && is_continuation_byte(view[offset_4th]))
                    ? encoding_type::UTF8_4BYTE
                    : encoding_type::INVALID;
-- 
2.43.0


From 066b44cb5f35cad6c2aa504ba734d83b148cfee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:24 +0000
Subject: [PATCH 05/30] fix: write_blob and write_clob required room for two of
 the three numbers they write

---
 src/jogasaki/serializer/value_output.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jogasaki/serializer/value_output.cpp b/src/jogasaki/serializer/value_output.cpp
index b70c2c1..b1cf071 100644
--- a/src/jogasaki/serializer/value_output.cpp
+++ b/src/jogasaki/serializer/value_output.cpp
@@ -526,6 +526,7 @@ bool write_blob(
         buffer_view::iterator& position,
         buffer_view::const_iterator end) {
     if (buffer_remaining(position, end) < 1
+            + sizeof(std::uint64_t)
             + sizeof(std::uint64_t)
             + sizeof(std::uint64_t)) {
         return false;
@@ -544,6 +545,7 @@ bool write_clob(
         buffer_view::iterator& position,
         buffer_view::const_iterator end) {
     if (buffer_remaining(position, end) < 1
+            + sizeof(std::uint64_t)
             + sizeof(std::uint64_t)
             + sizeof(std::uint64_t)) {
         return false;
-- 
2.43.0


From 22dae3f84ed818862d3c5e0813ebf2b7cc81d9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:22 +0000
Subject: [PATCH 06/30] fix: storage_manager name and key lookups could
 deadlock with removal of the entry

---
 src/jogasaki/storage/storage_manager.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jogasaki/storage/storage_manager.cpp b/src/jogasaki/storage/storage_manager.cpp
index 759c26f..93f49bd 100644
--- a/src/jogasaki/storage/storage_manager.cpp
+++ b/src/jogasaki/storage/storage_manager.cpp
@@ -280,6 +280,8 @@ std::optional<std::string> storage_manager::get_storage_key(std::string_view nam
         return std::nullopt;
     }
     auto entry = acc->second;
+    // release before looking up storages_ because other functions access the maps in the opposite order
+    acc.release();
 
     decltype(storages_)::const_accessor storages_acc{};
     if (! storages_.find(storages_acc, entry)) {
@@ -294,6 +296,8 @@ std::optional<std::string> storage_manager::get_index_name(std::string_view stor
         return std::nullopt;
     }
     auto entry = acc->second;
+    // release before looking up storages_ because other functions access the maps in the opposite order
+    acc.release();
 
     decltype(storages_)::const_accessor storages_acc{};
     if (! storages_.find(storages_acc, entry)) {
-- 
2.43.0


From 564e098d693e021f61d042d1bdedf7a383175ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:07 +0000
Subject: [PATCH 07/30] fix: count write tasks as running in their transaction

Tasks of write statements were not counted among the tasks running in the
transaction, so a commit or an abort requested while an INSERT was running was
carried out right under it.
---
 src/jogasaki/scheduler/flat_task.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jogasaki/scheduler/flat_task.cpp b/src/jogasaki/scheduler/flat_task.cpp
index 0559398..c0a3b2c 100644
--- a/src/jogasaki/scheduler/flat_task.cpp
+++ b/src/jogasaki/scheduler/flat_task.cpp
@@ -487,7 +487,8 @@ flat_task::flat_task(
     kind_(flat_task_kind::write),
     req_context_(rctx),
     write_(write),
-    sticky_(true)
+    sticky_(true),
+    in_transaction_(true)
 {}
 
 bool flat_task::sticky() const noexcept {
-- 
2.43.0


From 9112402554a1e43852f89c5db33853bc2a261fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:14 +0000
Subject: [PATCH 08/30] fix: releasing the storage references of a transaction
 raced with requests adding to them

---
 src/jogasaki/transaction_context.cpp | 11 ++++++++---
 src/jogasaki/transaction_context.h   |  1 +
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/jogasaki/transaction_context.cpp b/src/jogasaki/transaction_context.cpp
index 1d131a5..c44dfd6 100644
--- a/src/jogasaki/transaction_context.cpp
+++ b/src/jogasaki/transaction_context.cpp
@@ -80,7 +80,7 @@ transaction_context::operator bool() const noexcept {
 
 status transaction_context::commit(bool async) {
     auto ret = transaction_->commit(async);
-    storage_ref_scope_.reset(); // release storage refs so maintenance thread can clean up
+    reset_storage_ref_scope(); // release storage refs so maintenance thread can clean up
     storage_lock_.reset();      // release write lock so DML can proceed after DDL commit
     return ret;
 }
@@ -92,7 +92,7 @@ bool transaction_context::commit(transaction_context::commit_callback_type cb) {
 
 status transaction_context::abort_transaction() {
     auto ret = transaction_->abort_transaction();
-    storage_ref_scope_.reset(); // release storage refs so maintenance thread can clean up
+    reset_storage_ref_scope(); // release storage refs so maintenance thread can clean up
     storage_lock_.reset(); // release storage lock as soon as possible
     state_.set(transaction_state_kind::aborted);
     return ret;
@@ -189,10 +189,15 @@ void transaction_context::storage_lock(std::unique_ptr<storage::unique_lock> arg
 }
 
 void transaction_context::reset_storage_ref_scope() noexcept {
-    storage_ref_scope_.reset();
+    std::unique_ptr<storage::reference_scope> released{};
+    {
+        std::scoped_lock lock{storage_ref_scope_mutex_};
+        released = std::move(storage_ref_scope_);
+    }
 }
 
 void transaction_context::add_storage_ref(storage::storage_entry entry) {
+    std::scoped_lock lock{storage_ref_scope_mutex_};
     if (storage_ref_scope_) {
         storage_ref_scope_->add_storage(entry);
     }
diff --git a/src/jogasaki/transaction_context.h b/src/jogasaki/transaction_context.h
index 9723610..57bd2a7 100644
--- a/src/jogasaki/transaction_context.h
+++ b/src/jogasaki/transaction_context.h
@@ -481,6 +481,7 @@ private:
     transaction_state state_{};
     std::unique_ptr<storage::unique_lock> storage_lock_{};
     std::unique_ptr<storage::reference_scope> storage_ref_scope_{};
+    std::mutex storage_ref_scope_mutex_{}; // guards storage_ref_scope_, which is released while requests may still arrive
 
     cache_align static inline std::atomic_size_t surrogate_id_source_{};  //NOLINT
 };
-- 
2.43.0


From ff75b6c1af07c77661f5d89389cf2177e2462861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:20 +0000
Subject: [PATCH 09/30] fix: a task that throws left the transaction in use and
 finished its job while other tasks were running

---
 src/jogasaki/scheduler/flat_task.cpp | 55 +++++++++++++++++-----------
 src/jogasaki/scheduler/flat_task.h   |  1 +
 2 files changed, 34 insertions(+), 22 deletions(-)

diff --git a/src/jogasaki/scheduler/flat_task.cpp b/src/jogasaki/scheduler/flat_task.cpp
index c0a3b2c..f0cb2fb 100644
--- a/src/jogasaki/scheduler/flat_task.cpp
+++ b/src/jogasaki/scheduler/flat_task.cpp
@@ -189,6 +189,21 @@ bool flat_task::write() {
     return ret;
 }
 
+void flat_task::leave_transaction() {
+    if (in_transaction_ && req_context_ && req_context_->transaction()) {
+        auto& tctx = *req_context_->transaction();
+        termination_state ts{};
+        tctx.termination_mgr().decrement_task_use_count(ts);
+        if (ts.going_to_abort() && ts.task_empty()) {
+            (void) req_context_->transaction()->abort_transaction();
+            // request_info in the request context might not be the cause of the abort
+            // rather it is the request processing SQL that is interrupted by the abort
+            // TODO fix if that is a problem.
+            log_end_of_tx(*req_context_->transaction(), true, req_context_->req_info());
+        }
+    }
+}
+
 bool flat_task::execute(tateyama::task_scheduler::context& ctx) {
     if (in_transaction_ && req_context_ && req_context_->transaction()) {
         auto& tctx = *req_context_->transaction();
@@ -217,15 +232,21 @@ bool flat_task::execute(tateyama::task_scheduler::context& ctx) {
                             << " kind:" << kind_ << " sticky:" << sticky_ << " worker:" << ctx.index()
                             << " stolen:" << ctx.task_is_stolen() << " last_steal_from:" << ctx.last_steal_from();
     bool to_finish_job = false;
-    switch(kind_) {
-        using kind = flat_task_kind;
-        case kind::dag_events: dag_schedule(); break;
-        case kind::bootstrap: bootstrap(ctx); break;
-        case kind::resolve: resolve(ctx); break;
-        case kind::teardown: to_finish_job = ready_to_finish(*job(), false); break;
-        case kind::wrapped: to_finish_job = execute_wrapped(); break;
-        case kind::write: to_finish_job = write(); break;
-        case kind::load: to_finish_job = load(); break;
+    try {
+        switch(kind_) {
+            using kind = flat_task_kind;
+            case kind::dag_events: dag_schedule(); break;
+            case kind::bootstrap: bootstrap(ctx); break;
+            case kind::resolve: resolve(ctx); break;
+            case kind::teardown: to_finish_job = ready_to_finish(*job(), false); break;
+            case kind::wrapped: to_finish_job = execute_wrapped(); break;
+            case kind::write: to_finish_job = write(); break;
+            case kind::load: to_finish_job = load(); break;
+        }
+    } catch (...) {
+        // the task is no longer using the transaction even though it failed unexpectedly
+        leave_transaction();
+        throw;
     }
     std::chrono::time_point<clock> end{};
     std::size_t took_ns{};
@@ -247,18 +268,7 @@ bool flat_task::execute(tateyama::task_scheduler::context& ctx) {
                             << " job_id:" << utils::hex(req_context_->job()->id()) << " kind:" << kind_
                             << " sticky:" << sticky_ << " worker:" << ctx.index() << " stolen:" << ctx.task_is_stolen();
 
-    if (in_transaction_ && req_context_ && req_context_->transaction()) {
-        auto& tctx = *req_context_->transaction();
-        termination_state ts{};
-        tctx.termination_mgr().decrement_task_use_count(ts);
-        if (ts.going_to_abort() && ts.task_empty()) {
-            (void) req_context_->transaction()->abort_transaction();
-            // request_info in the request context might not be the cause of the abort
-            // rather it is the request processing SQL that is interrupted by the abort
-            // TODO fix if that is a problem.
-            log_end_of_tx(*req_context_->transaction(), true, req_context_->req_info());
-        }
-    }
+    leave_transaction();
     return to_finish_job;
 }
 
@@ -342,8 +352,9 @@ bool flat_task::execute_with_catch(tateyama::task_scheduler::context& ctx) {
 
         // try to complete the current job in order to reply back to client.
         // Otherwise, the request appears to remain running and shutdown of session or database is hindered.
-        job_completes = true;
+        // Other tasks of the job may still be running, so wait for them just as the tasks without error do.
         set_error_context(*req_context_, error_code::unknown_internal_error, "unexpected internal error occurred "+message, status::err_unknown);
+        job_completes = kind_ == flat_task_kind::teardown || check_or_submit_teardown(*req_context_, true);
     }
     return job_completes;
 
diff --git a/src/jogasaki/scheduler/flat_task.h b/src/jogasaki/scheduler/flat_task.h
index fe23e09..95a57a3 100644
--- a/src/jogasaki/scheduler/flat_task.h
+++ b/src/jogasaki/scheduler/flat_task.h
@@ -321,6 +321,7 @@ private:
     bool execute_wrapped();
     void resubmit(request_context& req_context);
     bool execute_with_catch(tateyama::task_scheduler::context& ctx);
+    void leave_transaction();
 
     std::ostream& write_to(std::ostream& out) const {
         using namespace std::string_view_literals;
-- 
2.43.0


From a841b90b1ba11457ad3df9422421e8f689651976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:13 +0000
Subject: [PATCH 10/30] fix: statements that end without being executed left
 their job registered or finished it under the running task

---
 src/jogasaki/executor/executor.cpp   | 20 +++++++++++++++++++-
 src/jogasaki/scheduler/flat_task.cpp |  5 +++++
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/jogasaki/executor/executor.cpp b/src/jogasaki/executor/executor.cpp
index a413c00..2597b9f 100644
--- a/src/jogasaki/executor/executor.cpp
+++ b/src/jogasaki/executor/executor.cpp
@@ -690,6 +690,20 @@ static bool validate_authorization(
     return true;
 }
 
+// complete the job of the request whose response has been already sent by this request
+static void complete_job(std::shared_ptr<request_context> const& rctx) {
+    auto& job = *rctx->job();
+    if(job.task_count() == 0) {
+        rctx->scheduler()->unregister_job(job.id());
+        return;
+    }
+    // called from the task of the job, which touches the job afterwards, so let the teardown wait for the task
+    job.callback([rctx]() {
+        (void) rctx; // keep request context until the end of job
+    });
+    scheduler::submit_teardown(*rctx);
+}
+
 bool execute_async_on_context(  //NOLINT(readability-function-cognitive-complexity)
     api::impl::database& database,
     std::shared_ptr<request_context> rctx,  //NOLINT
@@ -700,6 +714,7 @@ bool execute_async_on_context(  //NOLINT(readability-function-cognitive-complexi
 ) {
     auto& s = unsafe_downcast<api::impl::executable_statement&>(*statement);
     if(! validate_statement(*s.body(), rctx->record_channel(), on_completion)) {
+        complete_job(rctx);
         return false;
     }
     rctx->enable_stats();
@@ -713,11 +728,13 @@ bool execute_async_on_context(  //NOLINT(readability-function-cognitive-complexi
     // currently only DML is checked, but in future, DDL should be checked too.
     if (e->is_execute() || (!e->is_ddl() && !e->is_empty())) {
         if(! validate_authorization(*rctx, *e, req_info, on_completion)) {
+            complete_job(rctx);
             return true; // false is for unrecoverable abnormal error. This case is normal error.
         }
     }
 
     if(rctx->transaction() && ! validate_transaction(*rctx->transaction(), on_completion)) {
+        complete_job(rctx);
         return true; // inactive tx error - this is normal error so return true
     }
 
@@ -736,6 +753,7 @@ bool execute_async_on_context(  //NOLINT(readability-function-cognitive-complexi
                     res
                 ), nullptr);
             utils::print_error(*rctx, msg);
+            complete_job(rctx);
             return true; // false is for unrecoverable abnormal error. This case is normal error.
         }
         // pin primary storages in the transaction so that lazy deletion waits for tx completion
@@ -815,7 +833,7 @@ bool execute_async_on_context(  //NOLINT(readability-function-cognitive-complexi
         req->status(scheduler::request_detail_status::finishing);
         log_request(*req, rctx->status_code() == status::ok);
     }
-    ts.unregister_job(job->id());
+    complete_job(rctx);
     return true;
 }
 
diff --git a/src/jogasaki/scheduler/flat_task.cpp b/src/jogasaki/scheduler/flat_task.cpp
index f0cb2fb..0bd3dac 100644
--- a/src/jogasaki/scheduler/flat_task.cpp
+++ b/src/jogasaki/scheduler/flat_task.cpp
@@ -461,6 +461,11 @@ void flat_task::resolve(tateyama::task_scheduler::context& ctx) {
     if(auto res = sctx_->database_->resolve_common(*sctx_->statement_, maybe_shared_ptr{sctx_->parameters_},
         e, info); res != status::ok) {
         set_error_info(*req_context_, info);
+        sctx_->callback_(res, std::move(info), nullptr);
+        req_context_->job()->callback([rctx = req_context_.ownership()]() {
+            (void) rctx; // keep request context until the end of job
+        });
+        submit_teardown(*req_context_);
     } else {
         executor::execute_async_on_context(
                 *sctx_->database_,
-- 
2.43.0


From 860e18a730272b9a994d34c03e616c5d32c29610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:29 +0000
Subject: [PATCH 11/30] fix: an accepted commit left the transaction in the
 committing state

---
 src/jogasaki/executor/executor.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jogasaki/executor/executor.cpp b/src/jogasaki/executor/executor.cpp
index 2597b9f..279c1b6 100644
--- a/src/jogasaki/executor/executor.cpp
+++ b/src/jogasaki/executor/executor.cpp
@@ -938,6 +938,7 @@ static void process_commit_callback(
     auto response_kinds = rctx->commit_ctx()->response_kinds();
     bool last_less_equals_accepted = is_last(response_kinds, commit_response_kind::accepted);
     if(response_kinds.contains(commit_response_kind::accepted)) {
+        rctx->transaction()->state(transaction_state_kind::committed_available);
         static constexpr auto body = [](
             std::shared_ptr<request_context> const& rctx,
             bool last_less_equals_accepted
-- 
2.43.0


From 07844f28b3bd2ce470d8533b03b1e86750ee9515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:43 +0000
Subject: [PATCH 12/30] fix: a sequence far from its bound was taken as
 exhausted because of signed overflow

---
 src/jogasaki/executor/sequence/sequence.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/jogasaki/executor/sequence/sequence.cpp b/src/jogasaki/executor/sequence/sequence.cpp
index 3a7625e..c8fb65a 100644
--- a/src/jogasaki/executor/sequence/sequence.cpp
+++ b/src/jogasaki/executor/sequence/sequence.cpp
@@ -41,6 +41,17 @@ sequence_versioned_value sequence::get() const noexcept {
     return body_.load();
 }
 
+// absolute value, calculated as unsigned because that of the minimum is out of the signed range
+static std::uint64_t magnitude(sequence_value increment) noexcept {
+    auto v = static_cast<std::uint64_t>(increment);
+    return increment < 0 ? std::uint64_t{0} - v : v;
+}
+
+// whether upper - lower < distance, without overflow even if the values are far apart
+static bool less_than(sequence_value lower, sequence_value upper, std::uint64_t distance) noexcept {
+    return upper < lower || static_cast<std::uint64_t>(upper) - static_cast<std::uint64_t>(lower) < distance;
+}
+
 either<sequence_error, sequence_value> sequence::next(kvs::transaction& tx) {
     parent_->mark_sequence_used_by(tx, *this);
     aligned_sequence_versioned_value cur{};
@@ -53,13 +64,13 @@ either<sequence_error, sequence_value> sequence::next(kvs::transaction& tx) {
             continue;
         }
         sequence_value val{};
-        if (info_->increment() > 0 && info_->maximum_value() - cur.value_ < info_->increment()) {
+        if (info_->increment() > 0 && less_than(cur.value_, info_->maximum_value(), magnitude(info_->increment()))) {
             if(info_->cycle()) {
                 val = info_->minimum_value();
             } else {
                 return sequence_error::out_of_upper_bound;
             }
-        } else if (info_->increment() < 0 && cur.value_ - info_->minimum_value() < -info_->increment()) {
+        } else if (info_->increment() < 0 && less_than(info_->minimum_value(), cur.value_, magnitude(info_->increment()))) {
             if(info_->cycle()) {
                 val = info_->maximum_value();
             } else {
-- 
2.43.0


From 5fb14bcf7f748ecd68b027b50c967bda7a8cf8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:11 +0000
Subject: [PATCH 13/30] fix: a task that threw kept its writer seat, so its
 writer was never released and other tasks waited for it forever

---
 .../executor/process/impl/process_executor.cpp        | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/jogasaki/executor/process/impl/process_executor.cpp b/src/jogasaki/executor/process/impl/process_executor.cpp
index 32c70e1..aec3105 100644
--- a/src/jogasaki/executor/process/impl/process_executor.cpp
+++ b/src/jogasaki/executor/process/impl/process_executor.cpp
@@ -79,7 +79,16 @@ process_executor::status process_executor::run() {
     }
 
     // execute task
-    auto rc = processor_->run(context.get());
+    status rc{};
+    try {
+        rc = processor_->run(context.get());
+    } catch (...) {
+        // return the seat, otherwise its writer is never released and the others keep waiting for the seat
+        if (needs_seat) {
+            rctx->writer_pool()->release(std::move(impl_ctx->writer_seat()));
+        }
+        throw;
+    }
 
     // release seat if acquired
     if (needs_seat) {
-- 
2.43.0


From 7332d5a135dd9135840e525517e3054d8fb0038e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:45 +0000
Subject: [PATCH 14/30] fix: parallel tasks of a transaction could acquire two
 blob pools, losing the data registered in one of them

---
 src/jogasaki/datastore/register_lob.cpp | 10 ++++------
 src/jogasaki/transaction_context.h      | 17 +++++++++++++++++
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/jogasaki/datastore/register_lob.cpp b/src/jogasaki/datastore/register_lob.cpp
index 33b8a41..85bcf3d 100644
--- a/src/jogasaki/datastore/register_lob.cpp
+++ b/src/jogasaki/datastore/register_lob.cpp
@@ -39,15 +39,13 @@ static status register_lob_impl(
         return res;
     }
     try {
-        if (! tx->blob_pool()) {
-            tx->blob_pool(ds->acquire_blob_pool());
-        }
+        auto pool = tx->acquire_blob_pool_if_needed([&]() { return ds->acquire_blob_pool(); });
         if (data.has_value()) {
-            out = tx->blob_pool()->register_data(data.value());
+            out = pool->register_data(data.value());
         } else if (path.has_value()) {
-            out = tx->blob_pool()->register_file(boost::filesystem::path{std::string{path.value()}}, is_temporary);
+            out = pool->register_file(boost::filesystem::path{std::string{path.value()}}, is_temporary);
         } else {
-            out = tx->blob_pool()->duplicate_data(in);
+            out = pool->duplicate_data(in);
         }
     } catch (limestone::api::limestone_blob_exception const& e) {
         // assuming only the possible scenario is IO error with register_file
diff --git a/src/jogasaki/transaction_context.h b/src/jogasaki/transaction_context.h
index 57bd2a7..f64fef8 100644
--- a/src/jogasaki/transaction_context.h
+++ b/src/jogasaki/transaction_context.h
@@ -22,6 +22,7 @@
 #include <mutex>
 #include <optional>
 #include <string_view>
+#include <utility>
 
 #include <sharksfin/CallResult.h>
 #include <sharksfin/api.h>
@@ -403,6 +404,21 @@ public:
         blob_pool_ = std::move(arg);
     }
 
+    /**
+     * @brief return the blob pool of the transaction, acquiring it if there is none yet
+     * @param acquire the function to acquire new pool
+     * @return the pool shared by all the tasks of the transaction
+     * @note this function is thread-safe. Tasks of the transaction can call this function simultaneously.
+     */
+    template <class Acquire>
+    [[nodiscard]] std::shared_ptr<limestone::api::blob_pool> acquire_blob_pool_if_needed(Acquire&& acquire) {
+        std::scoped_lock lock{blob_pool_mutex_};
+        if (! blob_pool_) {
+            blob_pool_ = std::forward<Acquire>(acquire)();
+        }
+        return blob_pool_;
+    }
+
     /**
      * @brief accessor to the mutex for transaction lock
      * @return the mutex
@@ -477,6 +493,7 @@ private:
     std::optional<clock::time_point> end_time_{};
     std::string label_{};
     std::shared_ptr<limestone::api::blob_pool> blob_pool_{};
+    std::mutex blob_pool_mutex_{}; // guards acquisition of blob_pool_, which tasks running in parallel may request
     details::termination_manager term_mgr_{};
     transaction_state state_{};
     std::unique_ptr<storage::unique_lock> storage_lock_{};
-- 
2.43.0


From cabdd6b0f4dc34898d7e8eab8d71122115640ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:01 +0000
Subject: [PATCH 15/30] fix: forward exchange partition that received no record
 is empty instead of dereferencing null

---
 src/jogasaki/executor/exchange/forward/input_partition.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jogasaki/executor/exchange/forward/input_partition.cpp b/src/jogasaki/executor/exchange/forward/input_partition.cpp
index 2d1c13d..1543006 100644
--- a/src/jogasaki/executor/exchange/forward/input_partition.cpp
+++ b/src/jogasaki/executor/exchange/forward/input_partition.cpp
@@ -79,11 +79,11 @@ void input_partition::initialize_lazy() {
 }
 
 bool input_partition::empty() const noexcept {
-    return records_->empty();
+    return ! records_ || records_->empty();
 }
 
 std::size_t input_partition::count() const noexcept {
-    return records_->count();
+    return records_ ? records_->count() : 0;
 }
 
 std::atomic_bool& input_partition::active() noexcept {
-- 
2.43.0


From a0ad0b0ab807139fe4bd70d8b2f652889c9b8c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:03 +0000
Subject: [PATCH 16/30] fix: sorted vector reader split a group by its sort
 keys and applied the group limit to each part

---
 .../executor/exchange/group/sorted_vector_reader.cpp  | 11 ++++++-----
 .../executor/exchange/group/sorted_vector_reader.h    |  1 +
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/jogasaki/executor/exchange/group/sorted_vector_reader.cpp b/src/jogasaki/executor/exchange/group/sorted_vector_reader.cpp
index 02da745..468430e 100644
--- a/src/jogasaki/executor/exchange/group/sorted_vector_reader.cpp
+++ b/src/jogasaki/executor/exchange/group/sorted_vector_reader.cpp
@@ -42,7 +42,8 @@ sorted_vector_reader::sorted_vector_reader(
     info_(std::move(info)),
     record_size_(info_->record_meta()->record_size()),
     buf_(std::make_unique<char[]>(record_size_)), //NOLINT
-    key_comparator_(info_->sort_compare_info())
+    key_comparator_(info_->compare_info()),
+    sort_key_comparator_(info_->sort_compare_info())
 {
     std::size_t count = 0;
     for(auto& p : partitions_) {
@@ -87,7 +88,7 @@ accessor::record_ref sorted_vector_reader::get_group() const {
 }
 
 void sorted_vector_reader::discard_remaining_members_in_group() {
-    auto k = info_->extract_sort_key(accessor::record_ref(buf_.get(), record_size_));
+    auto k = info_->extract_key(accessor::record_ref(buf_.get(), record_size_));
     while(current_ != aggregated_pointer_table_.end()) {
         if (key_comparator_(k, info_->extract_key(accessor::record_ref(*current_, record_size_))) != 0) {
             break;
@@ -115,8 +116,8 @@ bool sorted_vector_reader::next_member() {
             return false;
         }
         if (key_comparator_(
-                info_->extract_sort_key(accessor::record_ref(buf_.get(), record_size_)),
-                info_->extract_sort_key(accessor::record_ref(*current_, record_size_))) == 0) {
+                info_->extract_key(accessor::record_ref(buf_.get(), record_size_)),
+                info_->extract_key(accessor::record_ref(*current_, record_size_))) == 0) {
             read_and_pop();
             ++record_count_per_group_;
             return true;
@@ -168,7 +169,7 @@ void sorted_vector_reader::init_aggregated_table() {  //NOLINT(readability-funct
             aggregated_pointer_table_.begin(),
             aggregated_pointer_table_.end(),
             [&](auto const&x, auto const& y) {
-                return key_comparator_(
+                return sort_key_comparator_(
                     info_->extract_sort_key(accessor::record_ref(x, sz)),
                     info_->extract_sort_key(accessor::record_ref(y, sz))) < 0;
             }
diff --git a/src/jogasaki/executor/exchange/group/sorted_vector_reader.h b/src/jogasaki/executor/exchange/group/sorted_vector_reader.h
index d72c98f..8d6fb74 100644
--- a/src/jogasaki/executor/exchange/group/sorted_vector_reader.h
+++ b/src/jogasaki/executor/exchange/group/sorted_vector_reader.h
@@ -79,6 +79,7 @@ private:
     std::unique_ptr<char[]> buf_{}; //NOLINT
     reader_state state_{reader_state::init};
     comparator key_comparator_{};
+    comparator sort_key_comparator_{};
     std::vector<pointer> aggregated_pointer_table_{};
     bool aggregated_pointer_table_initialized = false;
     std::vector<pointer>::iterator current_{};
-- 
2.43.0


From 4d216c387f204cc0745bd1517574d9a79ffbac52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:19 +0000
Subject: [PATCH 17/30] fix: values stored beyond the first page of a value
 store were read with the null flags of the first page

---
 src/jogasaki/data/value_store.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/jogasaki/data/value_store.h b/src/jogasaki/data/value_store.h
index b09de86..2f5c81d 100644
--- a/src/jogasaki/data/value_store.h
+++ b/src/jogasaki/data/value_store.h
@@ -108,7 +108,8 @@ public:
         range_(range),
         base_(base),
         offset_(offset),
-        null_flag_base_(null_flag_base)
+        null_flag_base_(null_flag_base),
+        null_flag_index_(offset)
     {}
 
     /**
@@ -136,6 +137,7 @@ public:
      */
     iterator& operator++() {
         ++offset_;
+        ++null_flag_index_;
         if (offset_ >= static_cast<std::size_t>(range_->e_ - range_->b_)) {
             ++range_;
             if(range_ != ranges_->end()) {
@@ -179,7 +181,7 @@ public:
         if (null_flag_base_ == nullptr) {
             return false;
         }
-        return *(null_flag_base_ + offset_) == static_cast<null_flag_type>(1);
+        return *(null_flag_base_ + null_flag_index_) == static_cast<null_flag_type>(1);
     }
 
     /// @brief equivalent comparison
@@ -217,6 +219,7 @@ private:
     value_pointer base_{};
     std::size_t offset_{};
     null_flag_const_pointer null_flag_base_{};
+    std::size_t null_flag_index_{};  // null flags are contiguous over all ranges
 };
 
 class cache_align typed_store {
@@ -634,6 +637,7 @@ public:
         prev_ = nullptr;
         ranges_.clear();
         null_prev_ = nullptr;
+        null_flag_base_ = nullptr;
     }
 
 private:
-- 
2.43.0


From 26c6f4539095dc7e5f43be42dbaf86a71c8d9755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:37 +0000
Subject: [PATCH 18/30] fix: COUNT(DISTINCT) counted every NaN as a different
 value

---
 .../executor/function/builtin_functions.cpp         | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/jogasaki/executor/function/builtin_functions.cpp b/src/jogasaki/executor/function/builtin_functions.cpp
index 3858981..804fe64 100644
--- a/src/jogasaki/executor/function/builtin_functions.cpp
+++ b/src/jogasaki/executor/function/builtin_functions.cpp
@@ -47,6 +47,7 @@
 #include <jogasaki/accessor/binary.h>
 #include <jogasaki/accessor/record_ref.h>
 #include <jogasaki/accessor/text.h>
+#include <jogasaki/executor/equal_to.h>
 #include <jogasaki/executor/function/aggregate_function_info.h>
 #include <jogasaki/executor/function/aggregate_function_kind.h>
 #include <jogasaki/executor/function/aggregate_function_repository.h>
@@ -238,11 +239,19 @@ namespace builtin {
 
 namespace details {
 
+template <class T>
+struct distinct_equal {
+    bool operator()(T const& x, T const& y) const {
+        // same equality as SQL values, i.e. NaN equals to itself
+        return executor::equal_to<T>(x, y);
+    }
+};
+
 template<class T>
 static std::int64_t count_distinct(data::value_store const& store) {
     using bucket_type = tsl::detail_hopscotch_hash::hopscotch_bucket<T, 62, false>;
     using hash_table_allocator = boost::container::pmr::polymorphic_allocator<T>;
-    using hash_set = tsl::hopscotch_set<T, std::hash<T>, std::equal_to<>, hash_table_allocator>;
+    using hash_set = tsl::hopscotch_set<T, std::hash<T>, distinct_equal<T>, hash_table_allocator>;
     // hopscotch default power_of_two_growth_policy forces the # of buckets to be power of two,
     // so round down here to avoid going over allocator limit
     constexpr static std::size_t default_initial_hash_table_size =
@@ -255,7 +264,7 @@ static std::int64_t count_distinct(data::value_store const& store) {
     hash_set values{
         default_initial_hash_table_size,
         std::hash<T>{},
-        std::equal_to<>{},
+        distinct_equal<T>{},
         hash_table_allocator{&resource}
     };
     while(b != e) {
-- 
2.43.0


From 1a50952280e611623d629d348cd49f29802abe19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:02 +0000
Subject: [PATCH 19/30] fix: reject key text without its terminator instead of
 reading past the end of the buffer

---
 src/jogasaki/kvs/readable_stream.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jogasaki/kvs/readable_stream.h b/src/jogasaki/kvs/readable_stream.h
index 0be2937..d4f353a 100644
--- a/src/jogasaki/kvs/readable_stream.h
+++ b/src/jogasaki/kvs/readable_stream.h
@@ -166,8 +166,8 @@ public:
     template<class T>
     std::enable_if_t<std::is_same_v<T, accessor::text>, T> read(order odr, bool discard, memory::paged_memory_resource* resource = nullptr) {
         auto len = read_text_length(odr);
-        if(!(pos_ + len <= capacity_)) throw_exception(std::domain_error{ //NOLINT
-                string_builder{} << base_filename() << " condition pos_ + len <= capacity_ failed with pos_:" << pos_ << " len:" << len << " capacity_:" << capacity_ << string_builder::to_string //NOLINT
+        if(!(pos_ + len + details::text_terminator::byte_size <= capacity_)) throw_exception(std::domain_error{ //NOLINT
+                string_builder{} << base_filename() << " condition pos_ + len + text_terminator::byte_size <= capacity_ failed with pos_:" << pos_ << " len:" << len << " capacity_:" << capacity_ << string_builder::to_string //NOLINT
             });
         auto pos = pos_;
         pos_ += len + details::text_terminator::byte_size;
-- 
2.43.0


From bc00e9f2bfe7f98ff63559b19569e84ca3856499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:02 +0000
Subject: [PATCH 20/30] fix: ignore decimal status left by earlier operations
 when encoding a key

---
 src/jogasaki/kvs/writable_stream.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jogasaki/kvs/writable_stream.cpp b/src/jogasaki/kvs/writable_stream.cpp
index d46b097..d9bd988 100644
--- a/src/jogasaki/kvs/writable_stream.cpp
+++ b/src/jogasaki/kvs/writable_stream.cpp
@@ -173,6 +173,7 @@ status writable_stream::do_write(runtime_t<meta::field_type_kind::decimal> data,
     }
     std::size_t precision = option.precision_.value();
     std::size_t scale = option.scale_.value();
+    decimal::context.clear_status();
     decimal::Decimal x{data};
     if((decimal::context.status() & MPD_IEEE_Invalid_operation) != 0) {
         decimal_error_logging("value creation", data, precision, scale, -1);
-- 
2.43.0


From e3e5a6ab5ec8ae4e5fa1cc1a8475abbe33632362 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 06:20:57 +0000
Subject: [PATCH 21/30] fix: do not trap on the division or remainder of the
 minimum integer by -1

---
 src/jogasaki/executor/expr/evaluator.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/jogasaki/executor/expr/evaluator.cpp b/src/jogasaki/executor/expr/evaluator.cpp
index d8eec51..f02cffa 100644
--- a/src/jogasaki/executor/expr/evaluator.cpp
+++ b/src/jogasaki/executor/expr/evaluator.cpp
@@ -18,6 +18,7 @@
 #include <cstdlib>
 #include <decimal.hh>
 #include <exception>
+#include <limits>
 #include <string>
 #include <string_view>
 #include <utility>
@@ -326,6 +327,18 @@ divide(T const& l, T const& r, evaluator_context& ctx) {
         e.new_argument() << r;
         return any{std::in_place_type<class error>, error_kind::arithmetic_error};
     }
+    if constexpr (std::is_integral_v<T>) {
+        if (r == -1 && l == std::numeric_limits<T>::min()) {
+            // the quotient is out of range, and the processor traps on the division
+            auto& e = ctx.add_error(
+                {error_kind::overflow,
+                 "integer out of range while performing division"}
+            );
+            e.new_argument() << l;
+            e.new_argument() << r;
+            return any{std::in_place_type<class error>, error_kind::overflow};
+        }
+    }
     return any{std::in_place_type<T>, l/r};
 }
 
@@ -351,6 +364,10 @@ remainder(T const& l, T const& r, evaluator_context& ctx) {
         e.new_argument() << r;
         return any{std::in_place_type<class error>, error_kind::arithmetic_error};
     }
+    if (r == -1) {
+        // always zero - the processor traps on the remainder of the minimum value
+        return any{std::in_place_type<T>, static_cast<T>(0)};
+    }
     return any{std::in_place_type<T>, l%r};
 }
 
-- 
2.43.0


From c52d58edc5010bc8ef40d391a55061df4dbec9df Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 06:20:57 +0000
Subject: [PATCH 22/30] fix: let LIKE's % consume whole characters when it
 backtracks

---
 src/jogasaki/executor/expr/evaluator.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/jogasaki/executor/expr/evaluator.cpp b/src/jogasaki/executor/expr/evaluator.cpp
index f02cffa..10bc8b5 100644
--- a/src/jogasaki/executor/expr/evaluator.cpp
+++ b/src/jogasaki/executor/expr/evaluator.cpp
@@ -789,6 +789,12 @@ static bool starts_with(std::string_view str, std::string_view prefix) {
     return str.size() >= prefix.size() && str.substr(0, prefix.size()) == prefix;
 }
 
+// Size of the character at the position, or 1 at the end of the input, where there is none left
+static std::size_t size_to_advance(std::string_view input, std::size_t index) {
+    auto const size = utils::get_byte(utils::detect_next_encoding(input, index));
+    return size == 0 ? 1 : size;
+}
+
 [[nodiscard]] static bool match_literal_token(std::string_view input, std::size_t& input_index,
     token const& tok, std::size_t& pattern_index, std::size_t& backtrack_input_index,
     std::size_t& backtrack_pattern_index) {
@@ -798,7 +804,7 @@ static bool starts_with(std::string_view str, std::string_view prefix) {
         return true;
     }
     if (backtrack_pattern_index != std::string::npos) {
-        ++backtrack_input_index;
+        backtrack_input_index += size_to_advance(input, backtrack_input_index);
         input_index   = backtrack_input_index;
         pattern_index = backtrack_pattern_index + 1;
         return true;
@@ -818,7 +824,7 @@ static bool starts_with(std::string_view str, std::string_view prefix) {
         return false;
     }
     if (backtrack_pattern_index != std::string::npos) {
-        ++backtrack_input_index;
+        backtrack_input_index += size_to_advance(input, backtrack_input_index);
         input_index   = backtrack_input_index;
         pattern_index = backtrack_pattern_index + 1;
         return true;
@@ -917,7 +923,7 @@ static bool match_like_pattern(std::string_view input, std::vector<token> const&
             if (input_index == input.size()) { return true; }
             // input 'a' and pattern '%' reaches here
             if (backtrack_pattern_index != std::string::npos) {
-                ++backtrack_input_index;
+                backtrack_input_index += size_to_advance(input, backtrack_input_index);
                 input_index   = backtrack_input_index;
                 pattern_index = backtrack_pattern_index + 1;
                 // input 'abcde' and pattern 'abc' reaches here
-- 
2.43.0


From 2735c0a27da8ca5b0ba4e66a76f272826f826ae7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 06:20:57 +0000
Subject: [PATCH 23/30] fix: ROUND of a decimal with no digit beyond the scale
 is the value itself

---
 src/jogasaki/executor/function/builtin_scalar_functions.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jogasaki/executor/function/builtin_scalar_functions.cpp b/src/jogasaki/executor/function/builtin_scalar_functions.cpp
index 7eda14a..49d52c4 100644
--- a/src/jogasaki/executor/function/builtin_scalar_functions.cpp
+++ b/src/jogasaki/executor/function/builtin_scalar_functions.cpp
@@ -1155,6 +1155,7 @@ static data::any round_decimal(data::any src, int32_t precision, evaluator_conte
         return data::any{std::in_place_type<error>, error(error_kind::unsupported)};
     }
     auto value  = src.to<runtime_t<kind::decimal>>();
+    if (value.exponent() >= -precision) { return src; } // no digit to round off
     auto type   = std::in_place_type<runtime_t<kind::decimal>>;
     auto one    = data::any{type, takatori::decimal::triple{+1, 0, 1, -precision}};
     auto remain = expr::remainder_any(src, one, ctx);
-- 
2.43.0


From 90e0b4c236c3c1b3daaeb289b934d7467e6d01d3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 06:20:57 +0000
Subject: [PATCH 24/30] fix: ROUND of a large floating point value does not
 overflow to infinity

---
 .../executor/function/builtin_scalar_functions.cpp        | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/jogasaki/executor/function/builtin_scalar_functions.cpp b/src/jogasaki/executor/function/builtin_scalar_functions.cpp
index 49d52c4..1bc6c21 100644
--- a/src/jogasaki/executor/function/builtin_scalar_functions.cpp
+++ b/src/jogasaki/executor/function/builtin_scalar_functions.cpp
@@ -16,6 +16,7 @@
 #include "builtin_scalar_functions.h"
 
 #include <cstddef>
+#include <cmath>
 #include <cstdint>
 #include <memory>
 #include <sstream>
@@ -1228,7 +1229,12 @@ static data::any round_floating_point(data::any src, int32_t precision, evaluato
 
     auto value  = src.to<T>();
     auto factor = std::pow(static_cast<FactorType>(10.0), static_cast<FactorType>(precision));
-    auto result = std::round(value * factor) / factor;
+    auto scaled = value * factor;
+    if (! std::isfinite(scaled)) {
+        // infinity, NaN, or too large to have digits after the decimal point
+        return data::any{std::in_place_type<T>, value};
+    }
+    auto result = std::round(scaled) / factor;
 
     return data::any{std::in_place_type<T>, result};
 }
-- 
2.43.0


From b109286f7cdd47ed084a1c5b900c02529da4c3b4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 06:20:57 +0000
Subject: [PATCH 25/30] fix: ROUND of an integer reports overflow instead of
 wrapping around

---
 .../executor/function/builtin_scalar_functions.cpp   | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/jogasaki/executor/function/builtin_scalar_functions.cpp b/src/jogasaki/executor/function/builtin_scalar_functions.cpp
index 1bc6c21..b243f31 100644
--- a/src/jogasaki/executor/function/builtin_scalar_functions.cpp
+++ b/src/jogasaki/executor/function/builtin_scalar_functions.cpp
@@ -1205,9 +1205,17 @@ static data::any round_integral(data::any src, int32_t precision, evaluator_cont
     auto fix_value = (value / divide) * divide;
     auto remain    = value - fix_value;
 
-    if (remain > 0 && remain >= divide / 2) {
+    bool const up   = remain > 0 && remain >= divide / 2;
+    bool const down = remain < 0 && remain <= -divide / 2;
+    if ((up && fix_value > std::numeric_limits<T>::max() - divide) ||
+        (down && fix_value < std::numeric_limits<T>::min() + divide)) {
+        ctx.add_error({error_kind::overflow,
+            std::string("integer out of range: rounded value exceeds ") + type_name});
+        return data::any{std::in_place_type<error>, error(error_kind::overflow)};
+    }
+    if (up) {
         fix_value += divide;
-    } else if (remain < 0 && remain <= -divide / 2) {
+    } else if (down) {
         fix_value -= divide;
     }
 
-- 
2.43.0


From df3468239a2720af6b1094419842da73dbb0bc1a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 06:20:57 +0000
Subject: [PATCH 26/30] fix: SUBSTRING stops at the end of the string whatever
 length is given

---
 src/jogasaki/executor/function/builtin_scalar_functions.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jogasaki/executor/function/builtin_scalar_functions.cpp b/src/jogasaki/executor/function/builtin_scalar_functions.cpp
index b243f31..53d4b8e 100644
--- a/src/jogasaki/executor/function/builtin_scalar_functions.cpp
+++ b/src/jogasaki/executor/function/builtin_scalar_functions.cpp
@@ -1038,6 +1038,7 @@ static size_t get_size_byte(std::string_view view, const size_t start_byte, cons
     size_t offset   = start_byte;
     for (size_t i = 0; i < letter_count; ++i) {
         tmp_byte = get_byte(detect_next_encoding(view, offset));
+        if (tmp_byte == 0) { break; } // end of the string
         offset += tmp_byte;
     }
     // offset is sum of tmp_bytes
-- 
2.43.0


From fd0a8936f6ced6ca8e1add56eda0daf25a613659 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 06:20:57 +0000
Subject: [PATCH 27/30] fix: CASE passes on the error of its body even when the
 body's type is converted

---
 src/jogasaki/executor/expr/evaluator.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jogasaki/executor/expr/evaluator.cpp b/src/jogasaki/executor/expr/evaluator.cpp
index 10bc8b5..37abdf7 100644
--- a/src/jogasaki/executor/expr/evaluator.cpp
+++ b/src/jogasaki/executor/expr/evaluator.cpp
@@ -990,12 +990,16 @@ static any convert_return_type_if_needed(
     any const& v,
     engine::memory_resource* resource
 ) {
+    if(v.error()) {
+        return v;
+    }
     auto& src_type = info.type_of(e);
     if(conv::to_require_conversion(src_type, dest_type)) {
         data::any converted{};
         if(auto res = conv::conduct_unifying_conversion(src_type, dest_type, v, converted, resource);
             res != status::ok) {
             VLOG_LP(log_error) << "unexpected error occurred during conversion";
+            return any{std::in_place_type<class error>, error_kind::unknown};
         }
         return converted;
     }
-- 
2.43.0


From 9cd1405815994f6255898e0b92b023fe06d7c19d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 06:43:55 +0000
Subject: [PATCH 28/30] fix: an inexact CAST of a number with the loss policy
 unknown results in NULL

---
 .../executor/expr/details/cast_evaluation.cpp | 122 +++++++++---------
 1 file changed, 61 insertions(+), 61 deletions(-)

diff --git a/src/jogasaki/executor/expr/details/cast_evaluation.cpp b/src/jogasaki/executor/expr/details/cast_evaluation.cpp
index 9fe1d32..eab7b45 100644
--- a/src/jogasaki/executor/expr/details/cast_evaluation.cpp
+++ b/src/jogasaki/executor/expr/details/cast_evaluation.cpp
@@ -102,23 +102,23 @@ static any supports_lobs(evaluator_context& ctx) {
  * @tparam Source source integer type
  * @param src the source integer to validate
  * @param ctx evaluator context
- * @return empty if validation is successful
- * @return error otherwise
+ * @return std::nullopt if the conversion should go on with the modified value
+ * @return the result of the conversion (error or null) otherwise
  */
 template <class Target, class TargetEffective = Target, class Source>
-static any handle_precision_lost(Source const& src, Target const& modified, evaluator_context& ctx) {
+static std::optional<any> handle_precision_lost(Source const& src, Target const& modified, evaluator_context& ctx) {
     ctx.lost_precision(true);
     switch(ctx.get_loss_precision_policy()) {
         case loss_precision_policy::ignore: break;
         case loss_precision_policy::floor: {
             ctx.add_error({error_kind::unsupported, "loss precision policy `floor` is unsupported"});
-            return {std::in_place_type<error>, error(error_kind::unsupported)};
+            return any{std::in_place_type<error>, error(error_kind::unsupported)};
         }
         case loss_precision_policy::ceil: {
             ctx.add_error({error_kind::unsupported, "loss precision policy `ceil` is unsupported"});
-            return {std::in_place_type<error>, error(error_kind::unsupported)};
+            return any{std::in_place_type<error>, error(error_kind::unsupported)};
         }
-        case loss_precision_policy::unknown: return {};  // null to indicate inexact conversion
+        case loss_precision_policy::unknown: return any{};  // null to indicate inexact conversion
         case loss_precision_policy::warn: {
             auto& e = ctx.add_error({error_kind::lost_precision, "value loses precision by conversion"});
             e.new_argument() << src;
@@ -130,10 +130,10 @@ static any handle_precision_lost(Source const& src, Target const& modified, eval
             auto& e = ctx.add_error({error_kind::lost_precision, "value loses precision by conversion"});
             e.new_argument() << src;
             e.new_argument() << modified;
-            return {std::in_place_type<error>, error(error_kind::lost_precision)};
+            return any{std::in_place_type<error>, error(error_kind::lost_precision)};
         }
     }
-    return {};
+    return std::nullopt;
 }
 
 /**
@@ -151,15 +151,15 @@ static any validate_integer_range_from_integer(Source src, evaluator_context& ct
     static const Source minTgt{std::numeric_limits<Target>::min()};
     if(maxTgt < src) {
         auto m = std::numeric_limits<Target>::max();
-        if(auto a = handle_precision_lost<Target, TargetEffective>(src, m, ctx); a.error()) {
-            return a;
+        if(auto a = handle_precision_lost<Target, TargetEffective>(src, m, ctx); a) {
+            return *a;
         }
         return any{std::in_place_type<TargetEffective>, static_cast<TargetEffective>(m)};
     }
     if(src < minTgt) {
         auto m = std::numeric_limits<Target>::min();
-        if(auto a = handle_precision_lost<Target, TargetEffective>(src, m, ctx); a.error()) {
-            return a;
+        if(auto a = handle_precision_lost<Target, TargetEffective>(src, m, ctx); a) {
+            return *a;
         }
         return any{std::in_place_type<TargetEffective>, static_cast<TargetEffective>(m)};
     }
@@ -167,7 +167,7 @@ static any validate_integer_range_from_integer(Source src, evaluator_context& ct
 }
 
 // fwd decl
-static any handle_inexact_conversion(
+static std::optional<any> handle_inexact_conversion(
     evaluator_context& ctx,
     decimal::Decimal const& d,
     decimal::Decimal const& dd
@@ -200,15 +200,15 @@ static any validate_integer_range_from_decimal(decimal::Decimal const& src, eval
     // src can be +INF/-INF
     if(maxTgt < src) {
         auto m = std::numeric_limits<Target>::max();
-        if(auto a = handle_precision_lost<Target, TargetEffective>(src, m, ctx); a.error()) {
-            return a;
+        if(auto a = handle_precision_lost<Target, TargetEffective>(src, m, ctx); a) {
+            return *a;
         }
         return any{std::in_place_type<TargetEffective>, static_cast<TargetEffective>(m)};
     }
     if(src < minTgt) {
         auto m = std::numeric_limits<Target>::min();
-        if(auto a = handle_precision_lost<Target, TargetEffective>(src, m, ctx); a.error()) {
-            return a;
+        if(auto a = handle_precision_lost<Target, TargetEffective>(src, m, ctx); a) {
+            return *a;
         }
         return any{std::in_place_type<TargetEffective>, static_cast<TargetEffective>(m)};
     }
@@ -225,8 +225,8 @@ static any validate_integer_range_from_decimal(decimal::Decimal const& src, eval
             e.new_argument() << rounded;
             return any{std::in_place_type<error>, error(error_kind::unknown)};
         }
-        if(auto a = handle_inexact_conversion(ctx, src, rounded); a.error()) {
-            return a;
+        if(auto a = handle_inexact_conversion(ctx, src, rounded); a) {
+            return *a;
         }
     }
     return any{std::in_place_type<TargetEffective>, from_decimal::to<TargetEffective>(rounded)};
@@ -244,41 +244,41 @@ static any validate_integer_range_from_float(Source const& src, evaluator_contex
     // the float value next larger/smaller than maxTgt/minTgt goes over integer max/min
     if(maxTgt < src) {
         auto m = std::numeric_limits<Target>::max();
-        if(auto a = handle_precision_lost<Target, TargetEffective>(src, m, ctx); a.error()) {
-            return a;
+        if(auto a = handle_precision_lost<Target, TargetEffective>(src, m, ctx); a) {
+            return *a;
         }
         return any{std::in_place_type<TargetEffective>, static_cast<TargetEffective>(m)};
     }
     if(src < minTgt) {
         auto m = std::numeric_limits<Target>::min();
-        if(auto a = handle_precision_lost<Target, TargetEffective>(src, m, ctx); a.error()) {
-            return a;
+        if(auto a = handle_precision_lost<Target, TargetEffective>(src, m, ctx); a) {
+            return *a;
         }
         return any{std::in_place_type<TargetEffective>, static_cast<TargetEffective>(m)};
     }
     auto truncated = std::trunc(src);
     if(src != truncated) {
         auto m = static_cast<Target>(truncated);
-        if(auto a = handle_precision_lost<Target, TargetEffective>(src, m, ctx); a.error()) {
-            return a;
+        if(auto a = handle_precision_lost<Target, TargetEffective>(src, m, ctx); a) {
+            return *a;
         }
         return any{std::in_place_type<TargetEffective>, static_cast<TargetEffective>(m)};
     }
     return any{std::in_place_type<TargetEffective>, static_cast<TargetEffective>(src)};
 }
 
-static any handle_inexact_conversion(
+static std::optional<any> handle_inexact_conversion(
     evaluator_context& ctx,
     decimal::Decimal const& d,
     decimal::Decimal const& dd
 ) {
     if((decimal::context.status() & MPD_Inexact) != 0) {
         // inexact operation
-        if(auto a = handle_precision_lost<decimal::Decimal, triple>(d, dd, ctx); a.error()) {
-            return a;
+        if(auto a = handle_precision_lost<decimal::Decimal, triple>(d, dd, ctx); a) {
+            return *a;
         }
     }
-    return {};
+    return std::nullopt;
 }
 
 static any create_max_decimal(evaluator_context& ctx, std::size_t precision, std::size_t scale, decimal::Decimal& out) {
@@ -298,7 +298,7 @@ static any create_max_decimal(evaluator_context& ctx, std::size_t precision, std
     return {};
 }
 
-static any reduce_decimal(decimal::Decimal const& value, decimal::Decimal& out, evaluator_context& ctx) {
+static std::optional<any> reduce_decimal(decimal::Decimal const& value, decimal::Decimal& out, evaluator_context& ctx) {
     decimal::context.clear_status();
     auto d = value.reduce();
     if((decimal::context.status() & MPD_IEEE_Invalid_operation) != 0) {
@@ -307,12 +307,12 @@ static any reduce_decimal(decimal::Decimal const& value, decimal::Decimal& out,
         e.new_argument() << d;
         return any{std::in_place_type<error>, error(error_kind::unknown)};
     }
-    if(auto a = handle_inexact_conversion(ctx, value, d); a.error()) {
+    if(auto a = handle_inexact_conversion(ctx, value, d); a) {
         // normally this should not happen, but in case
-        return a;
+        return *a;
     }
     out = d;
-    return {};
+    return std::nullopt;
 }
 
 any handle_ps(
@@ -337,8 +337,8 @@ any handle_ps(
     // 1.000 -> 1 -> 1.00
     // 1.200 -> 1.2 -> 1.20
     decimal::Decimal d{};
-    if(auto a = reduce_decimal(src, d, ctx); a.error()) {
-        return a;
+    if(auto a = reduce_decimal(src, d, ctx); a) {
+        return *a;
     }
     if(! precision.has_value() && ! scale.has_value()) {
         return as_triple(d, ctx);
@@ -363,9 +363,9 @@ any handle_ps(
             e.new_argument() << newd;
             return any{std::in_place_type<error>, error(error_kind::unknown)};
         }
-        if(auto a = handle_inexact_conversion(ctx, d, newd); a.error()) {
+        if(auto a = handle_inexact_conversion(ctx, d, newd); a) {
             // normally this should not happen, but in case
-            return a;
+            return *a;
         }
         d = newd;
     }
@@ -374,8 +374,8 @@ any handle_ps(
 
     if((static_cast<std::int64_t>(*precision - *scale) < digits - digits_prec) && ! d.iszero()) {
         // zero is the exceptional case where integral part has 1 digit but any decimal(p,s) can contain it
-        if(auto a = handle_precision_lost<decimal::Decimal, triple>(src, d, ctx); a.error()) {
-            return a;
+        if(auto a = handle_precision_lost<decimal::Decimal, triple>(src, d, ctx); a) {
+            return *a;
         }
         decimal::Decimal mx{};
         if(auto a = create_max_decimal(ctx, *precision, *scale, mx); a.error()) {
@@ -400,8 +400,8 @@ any handle_ps(
             return any{std::in_place_type<error>, error(error_kind::unknown)};
         }
     }
-    if(auto a = handle_inexact_conversion(ctx, d, rescaled); a.error()) {
-        return a;
+    if(auto a = handle_inexact_conversion(ctx, d, rescaled); a) {
+        return *a;
     }
     d = rescaled;
     return as_triple(d, ctx);
@@ -594,9 +594,9 @@ static bool is_valid_nan(std::string_view s) {
  * @brief convert string to decimal
  * This function is used internally to convert from string, to decimal, and then to target type.
  * @return error if the string is not a valid decimal
- * @return empty any if the conversion is successful (converted values is available in `out`, and `out` can be a special value)
+ * @return std::nullopt if the conversion is successful (converted values is available in `out`, and `out` can be a special value)
 */
-static any to_decimal_internal(
+static std::optional<any> to_decimal_internal(
     std::string_view s,
     evaluator_context& ctx,
     decimal::Decimal& out
@@ -613,12 +613,12 @@ static any to_decimal_internal(
     // do the digits validation first, otherwise, the exponent is too large and any operation can silently truncate the digits
     if(value.isspecial()) {
         out = value;
-        return {};
+        return std::nullopt;
     }
     if(value.iszero()) {
         // zero is the exceptional case, in that it can have very large exponent. Normalize to standard zero.
         out = decimal::Decimal{0}.copy_sign(value);
-        return {};
+        return std::nullopt;
     }
     // validate the value is in the valid triple (with digits checked) range
     // otherwise, truncate the coefficient and increase the exponent
@@ -637,15 +637,15 @@ static any to_decimal_internal(
                 e.new_argument() << rescaled;
                 return any{std::in_place_type<error>, error(error_kind::unknown)};
             }
-            if(auto a = handle_inexact_conversion(ctx, value, rescaled); a.error()) {
-                return a;
+            if(auto a = handle_inexact_conversion(ctx, value, rescaled); a) {
+                return *a;
             }
             value = rescaled;
         }
     }
     if(value.isspecial()) {
         out = value;
-        return {};
+        return std::nullopt;
     }
     if(decimal_context_emax < value.adjexp() || value.adjexp() < decimal_context_emin) {
         auto& e = ctx.add_error(
@@ -657,11 +657,11 @@ static any to_decimal_internal(
         e.new_argument() << value;
         return any{std::in_place_type<error>, error(error_kind::format_error)};
     }
-    if(auto a = reduce_decimal(value, value, ctx); a.error()) {
-        return a;
+    if(auto a = reduce_decimal(value, value, ctx); a) {
+        return *a;
     }
     out = value;
-    return {};
+    return std::nullopt;
 }
 
 /**
@@ -672,8 +672,8 @@ template <class T, class E = T>
 static any to_int(std::string_view s, evaluator_context& ctx) {
     decimal::Decimal d{};
     auto a = to_decimal_internal(s, ctx, d);
-    if(a.error()) {
-        return a;
+    if(a) {
+        return *a;
     }
     if(d.isspecial()) {
         auto& e = ctx.add_error({error_kind::format_error, "special value passed for conversion to integral type"});
@@ -687,8 +687,8 @@ static any to_int(std::string_view s, evaluator_context& ctx) {
 any to_float4(std::string_view s, evaluator_context& ctx) {
     decimal::Decimal d{};
     auto a = to_decimal_internal(s, ctx, d);
-    if(a.error()) {
-        return a;
+    if(a) {
+        return *a;
     }
     if(d.isnan() && ! is_valid_nan(s)) {
         auto& e = ctx.add_error({error_kind::format_error, "invalid string passed for conversion to float4"});
@@ -702,8 +702,8 @@ any to_float4(std::string_view s, evaluator_context& ctx) {
 any to_float8(std::string_view s, evaluator_context& ctx) {
     decimal::Decimal d{};
     auto a = to_decimal_internal(s, ctx, d);
-    if(a.error()) {
-        return a;
+    if(a) {
+        return *a;
     }
     if(d.isnan() && ! is_valid_nan(s)) {
         auto& e = ctx.add_error({error_kind::format_error, "invalid string passed for conversion to float8"});
@@ -722,8 +722,8 @@ any to_decimal(
 ) {
     decimal::Decimal dec{};
     auto a = to_decimal_internal(s, ctx, dec);
-    if(a.error()) {
-        return a;
+    if(a) {
+        return *a;
     }
     if(dec.isspecial()) {
         auto& e = ctx.add_error(
@@ -986,8 +986,8 @@ static any float_to_decimal(
     }
     if(std::isinf(src)) {
         auto tgt = std::signbit(src) ? triple_min : triple_max;
-        if(auto a = handle_precision_lost(src, tgt, ctx); a.error()) {
-            return a;
+        if(auto a = handle_precision_lost(src, tgt, ctx); a) {
+            return *a;
         }
         return any{std::in_place_type<triple>, tgt};
     }
-- 
2.43.0


From 99d041db2983d5e5137cb760174033e01ebec43f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 06:43:55 +0000
Subject: [PATCH 29/30] fix: ignore the spaces around NaN when text is cast to
 a floating point type

---
 src/jogasaki/executor/expr/details/cast_evaluation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jogasaki/executor/expr/details/cast_evaluation.cpp b/src/jogasaki/executor/expr/details/cast_evaluation.cpp
index eab7b45..c197e26 100644
--- a/src/jogasaki/executor/expr/details/cast_evaluation.cpp
+++ b/src/jogasaki/executor/expr/details/cast_evaluation.cpp
@@ -690,7 +690,7 @@ any to_float4(std::string_view s, evaluator_context& ctx) {
     if(a) {
         return *a;
     }
-    if(d.isnan() && ! is_valid_nan(s)) {
+    if(d.isnan() && ! is_valid_nan(trim_spaces(s))) {
         auto& e = ctx.add_error({error_kind::format_error, "invalid string passed for conversion to float4"});
         e.new_argument() << s;
         e.new_argument() << d;
@@ -705,7 +705,7 @@ any to_float8(std::string_view s, evaluator_context& ctx) {
     if(a) {
         return *a;
     }
-    if(d.isnan() && ! is_valid_nan(s)) {
+    if(d.isnan() && ! is_valid_nan(trim_spaces(s))) {
         auto& e = ctx.add_error({error_kind::format_error, "invalid string passed for conversion to float8"});
         e.new_argument() << s;
         e.new_argument() << d;
-- 
2.43.0


From 6f4d9acc199cff387253c8a22e51599b3c8abd54 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 06:49:51 +0000
Subject: [PATCH 30/30] fix: converting text that consists of spaces only does
 not read outside of it

---
 src/jogasaki/executor/expr/details/common.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jogasaki/executor/expr/details/common.h b/src/jogasaki/executor/expr/details/common.h
index bec8bfc..9e73274 100644
--- a/src/jogasaki/executor/expr/details/common.h
+++ b/src/jogasaki/executor/expr/details/common.h
@@ -52,7 +52,7 @@ inline std::string_view trim_spaces(std::string_view src) {
     auto b = std::find_if(src.begin(), src.end(), [](char c){
         return c != ' ';
     });
-    auto e = std::find_if(src.rbegin(), src.rend(), [](char c){
+    auto e = std::find_if(src.rbegin(), std::make_reverse_iterator(b), [](char c){
         return c != ' ';
     });
     return {b, static_cast<std::size_t>(std::distance(b, e.base()))};
-- 
2.43.0

