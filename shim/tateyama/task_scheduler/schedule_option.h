#pragma once
#include <cstddef>
namespace tateyama::task_scheduler {
enum class schedule_policy_kind : std::size_t { undefined = 0, suspended_worker };
class schedule_option {
public:
    schedule_option() = default;
    explicit schedule_option(schedule_policy_kind p) noexcept : policy_(p) {}
    [[nodiscard]] schedule_policy_kind policy() const noexcept { return policy_; }
private:
    schedule_policy_kind policy_{};
};
}
