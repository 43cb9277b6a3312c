#pragma once
#include <chrono>
#include <cstdint>
namespace takatori::datetime {
class time_interval {
public:
    using time_unit = std::chrono::duration<std::int64_t, std::nano>;
    constexpr time_interval() noexcept = default;
    constexpr explicit time_interval(time_unit o) noexcept : o_(o) {}
    [[nodiscard]] constexpr time_unit offset() const noexcept { return o_; }
    friend constexpr bool operator==(time_interval a, time_interval b) noexcept { return a.o_ == b.o_; }
    friend constexpr bool operator!=(time_interval a, time_interval b) noexcept { return ! (a == b); }
private:
    time_unit o_{};
};
} // namespace takatori::datetime
