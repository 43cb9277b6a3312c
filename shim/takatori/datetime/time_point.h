#pragma once
#include <chrono>
#include <cstdint>
#include <functional>
#include <ostream>
#include "date.h"
#include "time_of_day.h"
namespace takatori::datetime {
// seconds since 1970-01-01 00:00:00 (floor) plus a non-negative sub-second part
class time_point {
public:
    using offset_type = std::chrono::duration<std::int64_t>;
    using difference_type = std::chrono::nanoseconds;
    using subsecond_unit = std::chrono::nanoseconds;
    constexpr time_point() noexcept = default;
    constexpr explicit time_point(offset_type s, difference_type sub = difference_type{0}) noexcept : s_(s), n_(sub) {}
    constexpr time_point(date d, time_of_day t) noexcept
        : s_(d.days_since_epoch() * 86400 + static_cast<std::int64_t>(t.time_since_epoch().count() / 1'000'000'000ULL)), n_(static_cast<std::int64_t>(t.time_since_epoch().count() % 1'000'000'000ULL)) {}
    constexpr explicit time_point(date d) noexcept : time_point(d, time_of_day{}) {}
    template <class Clock, class Dur> constexpr explicit time_point(std::chrono::time_point<Clock, Dur> t) noexcept {
        auto n = std::chrono::duration_cast<std::chrono::nanoseconds>(t.time_since_epoch()).count();
        auto q = n / 1'000'000'000; auto r = n % 1'000'000'000; if (r < 0) { r += 1'000'000'000; --q; }
        s_ = offset_type{q}; n_ = difference_type{r};
    }
    static constexpr time_point now() { return time_point{std::chrono::system_clock::now()}; }
    [[nodiscard]] constexpr offset_type seconds_since_epoch() const noexcept { return s_; }
    [[nodiscard]] constexpr difference_type subsecond() const noexcept { return n_; }
    [[nodiscard]] constexpr class date date() const noexcept { auto s = s_.count(); auto q = s / 86400; if (s % 86400 < 0) --q; return takatori::datetime::date{q}; }
    [[nodiscard]] constexpr time_of_day time() const noexcept { auto s = s_.count() % 86400; if (s < 0) s += 86400; return time_of_day{std::chrono::nanoseconds{s * 1'000'000'000 + n_.count()}}; }
    friend constexpr time_point operator+(time_point a, offset_type d) noexcept { return time_point{a.s_ + d, a.n_}; }
    friend constexpr time_point operator-(time_point a, offset_type d) noexcept { return time_point{a.s_ - d, a.n_}; }
    constexpr time_point& operator+=(offset_type d) noexcept { s_ += d; return *this; }
    constexpr time_point& operator-=(offset_type d) noexcept { s_ -= d; return *this; }
    friend constexpr bool operator==(time_point a, time_point b) noexcept { return a.s_ == b.s_ && a.n_ == b.n_; }
    friend constexpr bool operator!=(time_point a, time_point b) noexcept { return ! (a == b); }
    friend constexpr bool operator<(time_point a, time_point b) noexcept { return a.s_ != b.s_ ? a.s_ < b.s_ : a.n_ < b.n_; }
    friend constexpr bool operator>(time_point a, time_point b) noexcept { return b < a; }
    friend constexpr bool operator<=(time_point a, time_point b) noexcept { return ! (b < a); }
    friend constexpr bool operator>=(time_point a, time_point b) noexcept { return ! (a < b); }
    friend std::ostream& operator<<(std::ostream& o, time_point a) { return o << a.s_.count() << "s" << a.n_.count() << "ns"; }
private:
    offset_type s_{0}; difference_type n_{0};
};
} // namespace takatori::datetime
template <> struct std::hash<takatori::datetime::time_point> { std::size_t operator()(takatori::datetime::time_point v) const noexcept { return std::hash<std::int64_t>{}(v.seconds_since_epoch().count()) * 31 + std::hash<std::int64_t>{}(v.subsecond().count()); } };
