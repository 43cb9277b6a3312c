#pragma once
#include <cstdint>
#include <functional>
#include <ostream>
namespace takatori::datetime {
// days since 1970-01-01 in the proleptic Gregorian calendar
class date {
public:
    using difference_type = std::int64_t;
    constexpr date() noexcept = default;
    constexpr explicit date(difference_type d) noexcept : d_(d) {}
    constexpr date(std::int32_t y, std::uint32_t m, std::uint32_t d) noexcept {
        std::int64_t yy = y - (m <= 2 ? 1 : 0);
        std::int64_t era = (yy >= 0 ? yy : yy - 399) / 400;
        std::int64_t yoe = yy - era * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
        d_ = era * 146097 + doe - 719468;
    }
    [[nodiscard]] constexpr difference_type days_since_epoch() const noexcept { return d_; }
    [[nodiscard]] constexpr std::int32_t year() const noexcept { std::int64_t y = 0; std::uint32_t m = 0, d = 0; civil(y, m, d); return static_cast<std::int32_t>(y); }
    [[nodiscard]] constexpr std::uint32_t month() const noexcept { std::int64_t y = 0; std::uint32_t m = 0, d = 0; civil(y, m, d); return m; }
    [[nodiscard]] constexpr std::uint32_t day() const noexcept { std::int64_t y = 0; std::uint32_t m = 0, d = 0; civil(y, m, d); return d; }
    friend constexpr bool operator==(date a, date b) noexcept { return a.d_ == b.d_; }
    friend constexpr bool operator!=(date a, date b) noexcept { return a.d_ != b.d_; }
    friend constexpr bool operator<(date a, date b) noexcept { return a.d_ < b.d_; }
    friend constexpr bool operator>(date a, date b) noexcept { return a.d_ > b.d_; }
    friend constexpr bool operator<=(date a, date b) noexcept { return a.d_ <= b.d_; }
    friend constexpr bool operator>=(date a, date b) noexcept { return a.d_ >= b.d_; }
    friend std::ostream& operator<<(std::ostream& o, date a) { return o << a.d_ << "d"; }
private:
    constexpr void civil(std::int64_t& y, std::uint32_t& m, std::uint32_t& d) const noexcept {
        std::int64_t z = d_ + 719468, era = (z >= 0 ? z : z - 146096) / 146097, doe = z - era * 146097;
        std::int64_t yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365, doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
        d = static_cast<std::uint32_t>(doy - (153 * mp + 2) / 5 + 1); m = static_cast<std::uint32_t>(mp < 10 ? mp + 3 : mp - 9); y = yoe + era * 400 + (m <= 2 ? 1 : 0);
    }
    difference_type d_{0};
};
} // namespace takatori::datetime
template <> struct std::hash<takatori::datetime::date> { std::size_t operator()(takatori::datetime::date v) const noexcept { return std::hash<std::int64_t>{}(v.days_since_epoch()); } };
