#pragma once
#include <chrono>
#include <cstdint>
#include <optional>
#include <string>
#include <string_view>
#include <takatori/util/either.h>
namespace takatori::datetime {
struct date_info { std::uint32_t year{}, month{}, day{}; };
struct time_info { std::uint32_t hour{}, minute{}, second{}; std::chrono::nanoseconds subsecond{}; };
struct zone_offset_info { bool plus{true}; std::uint32_t hour{}, minute{}; };
struct datetime_info { date_info date{}; time_info time{}; std::optional<zone_offset_info> offset{}; };
template <class T> using conversion_result = util::either<std::string, T>;
namespace verif {
struct reader {
    std::string_view s; std::size_t i{0};
    bool num(std::size_t lo, std::size_t hi, std::uint32_t& v) { std::size_t k = i; v = 0; while (k < s.size() && k - i < hi && s[k] >= '0' && s[k] <= '9') v = v * 10 + static_cast<std::uint32_t>(s[k++] - '0'); if (k - i < lo) return false; i = k; return true; }
    bool ch(char c) { if (i < s.size() && s[i] == c) { ++i; return true; } return false; }
    bool end() const { return i == s.size(); }
    bool date(date_info& d) {
        if (! num(4, 4, d.year) || ! ch('-') || ! num(2, 2, d.month) || ! ch('-') || ! num(2, 2, d.day)) return false;
        static constexpr std::uint32_t dm[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
        bool leap = (d.year % 4 == 0 && d.year % 100 != 0) || d.year % 400 == 0;
        return d.month >= 1 && d.month <= 12 && d.day >= 1 && d.day <= dm[d.month - 1] + (d.month == 2 && leap ? 1 : 0);
    }
    bool time(time_info& t) {
        if (! num(2, 2, t.hour) || ! ch(':') || ! num(2, 2, t.minute) || ! ch(':') || ! num(2, 2, t.second)) return false;
        if (t.hour > 23 || t.minute > 59 || t.second > 59) return false;
        if (ch('.')) { auto b = i; std::uint32_t v = 0; if (! num(1, 9, v)) return false; std::int64_t n = v; for (auto k = i - b; k < 9; ++k) n *= 10; t.subsecond = std::chrono::nanoseconds{n}; }
        return true;
    }
    bool zone(std::optional<zone_offset_info>& o) {
        if (end()) return true;
        if (ch('Z')) { o.emplace(); return true; }
        zone_offset_info z{};
        if (ch('+')) z.plus = true; else if (ch('-')) z.plus = false; else return false;
        if (! num(2, 2, z.hour)) return false;
        if (ch(':') && ! num(2, 2, z.minute)) return false;
        if (z.hour > 18 || z.minute > 59) return false;
        o = z; return true;
    }
};
} // namespace verif
// a small grammar: YYYY-MM-DD, hh:mm:ss[.f], date (space or T) time [Z or +-hh[:mm]]
inline conversion_result<date_info> parse_date(std::string_view s) { verif::reader r{s}; date_info d{}; if (r.date(d) && r.end()) return d; return std::string{"invalid date"}; }
inline conversion_result<time_info> parse_time(std::string_view s) { verif::reader r{s}; time_info t{}; if (r.time(t) && r.end()) return t; return std::string{"invalid time"}; }
inline conversion_result<datetime_info> parse_datetime(std::string_view s) {
    verif::reader r{s}; datetime_info d{};
    if (r.date(d.date) && (r.ch(' ') || r.ch('T')) && r.time(d.time) && r.zone(d.offset) && r.end()) return d;
    return std::string{"invalid datetime"};
}
} // namespace takatori::datetime
