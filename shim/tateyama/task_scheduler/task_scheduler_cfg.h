#pragma once
#include <cstddef>
#include <ostream>
#include <boost/rational.hpp>
namespace tateyama::task_scheduler {
class task_scheduler_cfg {
public:
#define VERIF_P(T, n, v) [[nodiscard]] T n() const noexcept { return n##_; } void n(T arg) noexcept { n##_ = arg; } T n##_{v};
    VERIF_P(std::size_t, thread_count, 2)
    VERIF_P(bool, core_affinity, false)
    VERIF_P(std::size_t, initial_core, 1)
    VERIF_P(bool, assign_numa_nodes_uniformly, false)
    VERIF_P(std::size_t, force_numa_node, static_cast<std::size_t>(-1))
    VERIF_P(bool, stealing_enabled, true)
    VERIF_P(bool, use_preferred_worker_for_current_thread, false)
    VERIF_P(bool, stealing_wait, false)
    VERIF_P(bool, task_polling_wait, false)
    VERIF_P(bool, busy_worker, false)
    VERIF_P(std::size_t, watcher_interval, 0)
    VERIF_P(std::size_t, worker_try_count, 0)
    VERIF_P(std::size_t, worker_suspend_timeout, 0)
    VERIF_P(boost::rational<std::int64_t>, ratio_check_local_first, 1)
#undef VERIF_P
};
}
