#pragma once
#include <decimal.hh>
#include <stdexcept>
#include <cstdint>
#include <functional>
#include <ostream>
#include <string>
namespace takatori::decimal {
// sign, 128 bit coefficient, exponent: value = sign * coefficient * 10^exponent
class triple {
public:
    using coefficient_type = std::uint64_t;
    constexpr triple() noexcept = default;
    constexpr triple(std::int32_t sign, std::uint64_t hi, std::uint64_t lo, std::int32_t exp) noexcept
        : hi_(hi), lo_(lo), exp_(exp), sign_(hi == 0 && lo == 0 ? 0 : (sign > 0 ? 1 : sign < 0 ? -1 : 0)) {}
    constexpr triple(std::int64_t c, std::int32_t exp = 0) noexcept //NOLINT
        : hi_(0), lo_(c < 0 ? ~static_cast<std::uint64_t>(c) + 1 : static_cast<std::uint64_t>(c)), exp_(exp), sign_(c > 0 ? 1 : c < 0 ? -1 : 0) {}
    explicit triple(::decimal::Decimal const& d) : triple(d.as_uint128_triple()) {}
    explicit triple(::decimal::ctriple const& t) {
        if (t.tag != 0 || t.exp > INT32_MAX || t.exp < INT32_MIN) throw std::invalid_argument{"triple: out of range"};
        *this = triple{t.sign ? -1 : 1, t.hi, t.lo, static_cast<std::int32_t>(t.exp)};
    }
    explicit operator ::decimal::Decimal() const { return ::decimal::Decimal::from(sign_ < 0, hi_, lo_, exp_); }
    [[nodiscard]] constexpr std::int32_t sign() const noexcept { return sign_; }
    [[nodiscard]] constexpr std::uint64_t coefficient_high() const noexcept { return hi_; }
    [[nodiscard]] constexpr std::uint64_t coefficient_low() const noexcept { return lo_; }
    [[nodiscard]] constexpr std::int32_t exponent() const noexcept { return exp_; }
    [[nodiscard]] std::string to_string() const {
        unsigned __int128 c = (static_cast<unsigned __int128>(hi_) << 64) | lo_;
        std::string s; do { s.insert(s.begin(), static_cast<char>('0' + static_cast<int>(c % 10))); c /= 10; } while (c != 0);
        return (sign_ < 0 ? "-" : "") + s + (exp_ != 0 ? "E" + std::to_string(exp_) : "");
    }
    friend constexpr bool operator==(triple a, triple b) noexcept { return a.sign_ == b.sign_ && a.hi_ == b.hi_ && a.lo_ == b.lo_ && a.exp_ == b.exp_; }
    friend constexpr bool operator!=(triple a, triple b) noexcept { return ! (a == b); }
    friend std::ostream& operator<<(std::ostream& o, triple a) { return o << a.to_string(); }
private:
    std::uint64_t hi_{}, lo_{}; std::int32_t exp_{}; std::int32_t sign_{};
};
} // namespace takatori::decimal
template <> struct std::hash<takatori::decimal::triple> { std::size_t operator()(takatori::decimal::triple v) const noexcept { return v.coefficient_low() * 31 + v.coefficient_high() * 17 + static_cast<std::size_t>(v.exponent()) * 7 + static_cast<std::size_t>(v.sign()); } };
