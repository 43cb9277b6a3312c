#pragma once
#include <chrono>
#include <cstdint>
#include <functional>
#include <ostream>
namespace takatori::datetime {
class time_of_day {
public:
    using time_unit = std::chrono::duration<std::uint64_t, std::nano>;
    static constexpr std::uint64_t max_value = 86'400ULL * 1'000'000'000ULL - 1;
    constexpr time_of_day() noexcept = default;
    constexpr explicit time_of_day(time_unit u) noexcept : n_(u.count()) {}
    template <class Rep, class Period> constexpr explicit time_of_day(std::chrono::duration<Rep, Period> u) noexcept : n_(static_cast<std::uint64_t>(std::chrono::duration_cast<std::chrono::nanoseconds>(u).count())) {}
    constexpr time_of_day(std::uint32_t h, std::uint32_t m, std::uint32_t s, std::chrono::nanoseconds sub = std::chrono::nanoseconds{0}) noexcept
        : n_((h * 3600ULL + m * 60ULL + s) * 1'000'000'000ULL + static_cast<std::uint64_t>(sub.count())) {}
    [[nodiscard]] constexpr time_unit time_since_epoch() const noexcept { return time_unit{n_}; }
    [[nodiscard]] constexpr std::uint32_t hour() const noexcept { return static_cast<std::uint32_t>(n_ / 3'600'000'000'000ULL); }
    [[nodiscard]] constexpr std::uint32_t minute() const noexcept { return static_cast<std::uint32_t>(n_ / 60'000'000'000ULL % 60); }
    [[nodiscard]] constexpr std::uint32_t second() const noexcept { return static_cast<std::uint32_t>(n_ / 1'000'000'000ULL % 60); }
    [[nodiscard]] constexpr std::chrono::nanoseconds subsecond() const noexcept { return std::chrono::nanoseconds{static_cast<std::int64_t>(n_ % 1'000'000'000ULL)}; }
    template <class Rep, class Period> constexpr time_of_day& operator+=(std::chrono::duration<Rep, Period> d) noexcept { // wraps around midnight
        auto day = static_cast<std::int64_t>(max_value + 1);
        auto v = static_cast<std::int64_t>(n_) + std::chrono::duration_cast<std::chrono::nanoseconds>(d).count() % day;
        n_ = static_cast<std::uint64_t>(((v % day) + day) % day); return *this; }
    friend constexpr bool operator==(time_of_day a, time_of_day b) noexcept { return a.n_ == b.n_; }
    friend constexpr bool operator!=(time_of_day a, time_of_day b) noexcept { return a.n_ != b.n_; }
    friend constexpr bool operator<(time_of_day a, time_of_day b) noexcept { return a.n_ < b.n_; }
    friend constexpr bool operator>(time_of_day a, time_of_day b) noexcept { return a.n_ > b.n_; }
    friend constexpr bool operator<=(time_of_day a, time_of_day b) noexcept { return a.n_ <= b.n_; }
    friend constexpr bool operator>=(time_of_day a, time_of_day b) noexcept { return a.n_ >= b.n_; }
    friend std::ostream& operator<<(std::ostream& o, time_of_day a) { return o << a.n_ << "ns"; }
private:
    std::uint64_t n_{0};
};
} // namespace takatori::datetime
template <> struct std::hash<takatori::datetime::time_of_day> { std::size_t operator()(takatori::datetime::time_of_day v) const noexcept { return std::hash<std::uint64_t>{}(v.time_since_epoch().count()); } };
