#pragma once
#include <cstddef>
namespace tateyama::task_scheduler {
class context {
public:
    context() = default;
    explicit context(std::size_t index) noexcept : index_(index) {}
    [[nodiscard]] std::size_t index() const noexcept { return index_; }
    [[nodiscard]] std::size_t last_steal_from() const noexcept { return last_; }
    [[nodiscard]] bool task_is_stolen() const noexcept { return stolen_; }
    void task_is_stolen(bool arg) noexcept { stolen_ = arg; }
private:
    std::size_t index_{}; std::size_t last_{}; bool stolen_{};
};
}
