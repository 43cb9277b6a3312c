// Stand-in for the external work-stealing scheduler: one queue per worker; a worker runs its own tasks in order, and
// steals from others when its own queue is empty and the task is not pinned.  The harness decides when workers run.
#pragma once
#include <deque>
#include <functional>
#include <memory>
#include <mutex>
#include <ostream>
#include <vector>
#include <glog/logging.h>
#include <tateyama/task_scheduler/context.h>
#include <tateyama/task_scheduler/schedule_option.h>
#include <tateyama/task_scheduler/task_scheduler_cfg.h>
#ifdef VERIF_COOP
#include "coop.h"
#define VERIF_SCHED_LOCK coop::point(); coop::quiet verif_q_
#define VERIF_SCHED_QUIET coop::quiet verif_q_
#define VERIF_SCHED_WAKE coop::wake_all(tateyama::task_scheduler::verif_wake_key())
#else
#define VERIF_SCHED_LOCK std::unique_lock lk{m_}
#define VERIF_SCHED_QUIET (void) 0
#define VERIF_SCHED_WAKE (void) 0
#endif
namespace tateyama::task_scheduler {
inline void const* verif_wake_key() { static int k{}; return &k; }
template <class T, class C>
class scheduler {
public:
    using init = std::function<void(std::size_t)>;
    explicit scheduler(task_scheduler_cfg cfg = {}, init in = {}) : queues_(cfg.thread_count() == 0 ? 1 : cfg.thread_count()), init_(std::move(in)) { last() = this; }
    void schedule_at(T&& t, std::size_t i) { VERIF_SCHED_LOCK; queues_[i % queues_.size()].pinned.emplace_back(std::move(t)); VERIF_SCHED_WAKE; }
    void schedule(T&& t, schedule_option = schedule_option{}) { VERIF_SCHED_LOCK; queues_[next_++ % queues_.size()].free.emplace_back(std::move(t)); VERIF_SCHED_WAKE; }
    void schedule_conditional(C&& c) { VERIF_SCHED_LOCK; cond_.emplace_back(std::move(c)); VERIF_SCHED_WAKE; }
    [[nodiscard]] std::size_t preferred_worker_for_current_thread() { return 0; }
    [[nodiscard]] std::size_t next_worker() { VERIF_SCHED_LOCK; return next_++ % queues_.size(); }
    void start() { started_ = true; }
    void stop() { VERIF_SCHED_QUIET; started_ = false; for (auto& q : queues_) { q.pinned.clear(); q.free.clear(); } cond_.clear(); }
    void print_worker_stats(std::ostream&) {}
    void print_diagnostic(std::ostream&) {}
    // --- used by the harness
    static scheduler*& last() { static scheduler* p{}; return p; }
    [[nodiscard]] std::size_t size() const noexcept { return queues_.size(); }
    void init_worker(std::size_t i) { if (init_) init_(i); }
    bool step(std::size_t i) { // runs one task as worker i; false when there is nothing to do
        std::unique_ptr<T> t{}; bool stolen = false;
        {
            VERIF_SCHED_LOCK;
            auto& q = queues_[i % queues_.size()];
            if (! q.pinned.empty()) { t = std::make_unique<T>(std::move(q.pinned.front())); q.pinned.pop_front(); }
            else if (! q.free.empty()) { t = std::make_unique<T>(std::move(q.free.front())); q.free.pop_front(); }
            else for (auto& o : queues_) if (! o.free.empty()) { t = std::make_unique<T>(std::move(o.free.front())); o.free.pop_front(); stolen = true; break; }
        }
        if (! t) return false;
        context ctx{i};
        ctx.task_is_stolen(stolen);
        (*t)(ctx);
        return true;
    }
    bool step_conditional() {
        std::unique_ptr<C> c{};
        { VERIF_SCHED_LOCK; if (! cond_.empty()) { c = std::make_unique<C>(std::move(cond_.front())); cond_.pop_front(); } }
        if (! c) return false;
        if (c->check()) { (*c)(); return true; }
        VERIF_SCHED_LOCK;
        cond_.emplace_back(std::move(*c));
        return false;
    }
    // no scheduling point: a caller can block on the wake key right after it
    [[nodiscard]] bool runnable(std::size_t i) const { VERIF_SCHED_QUIET; auto& q = queues_[i % queues_.size()]; if (! q.pinned.empty()) return true; for (auto& o : queues_) if (! o.free.empty()) return true; return false; }
    [[nodiscard]] bool idle() const { VERIF_SCHED_QUIET; if (! cond_.empty()) return false; for (auto& q : queues_) if (! q.pinned.empty() || ! q.free.empty()) return false; return true; }
private:
    struct queue { std::deque<T> pinned, free; };
    std::vector<queue> queues_; init init_; std::deque<C> cond_{}; std::size_t next_{}; bool started_{}; std::mutex m_{};
};
}
