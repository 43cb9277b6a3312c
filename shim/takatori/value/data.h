#pragma once
#include <cstdint>
#include <memory>
#include <string>
#include <string_view>
#include <takatori/value/value_kind.h>
#include <takatori/decimal/triple.h>
#include <takatori/datetime/date.h>
#include <takatori/datetime/time_of_day.h>
#include <takatori/datetime/time_point.h>
namespace takatori::value {
class data {
public:
    virtual ~data() = default;
    [[nodiscard]] virtual value_kind kind() const noexcept = 0;
    [[nodiscard]] virtual std::unique_ptr<data> clone() const = 0;
};
template <value_kind K, class V, class W = V> class simple_value : public data {
public:
    static constexpr value_kind tag = K;
    using entity_type = V; using view_type = W;
    simple_value() = default;
    explicit simple_value(V v) : v_(std::move(v)) {}
    [[nodiscard]] value_kind kind() const noexcept override { return K; }
    [[nodiscard]] std::unique_ptr<data> clone() const override { return std::make_unique<simple_value>(*this); }
    [[nodiscard]] W get() const noexcept { return v_; }
private:
    V v_{};
};
class unknown : public data { public: static constexpr value_kind tag = value_kind::unknown; [[nodiscard]] value_kind kind() const noexcept override { return tag; } [[nodiscard]] std::unique_ptr<data> clone() const override { return std::make_unique<unknown>(); } };
// the longest prefix of at most n bytes that does not end inside a character
inline std::string_view truncate_utf8(std::string_view s, std::size_t n) {
    if (s.size() <= n) return s;
    auto k = n;
    while (k > 0 && (static_cast<unsigned char>(s[k]) & 0xC0U) == 0x80U) --k;
    return s.substr(0, k);
}
using boolean = simple_value<value_kind::boolean, bool>;
using int4 = simple_value<value_kind::int4, std::int32_t>;
using int8 = simple_value<value_kind::int8, std::int64_t>;
using float4 = simple_value<value_kind::float4, float>;
using float8 = simple_value<value_kind::float8, double>;
using decimal = simple_value<value_kind::decimal, takatori::decimal::triple>;
using character = simple_value<value_kind::character, std::string, std::string_view>;
using octet = simple_value<value_kind::octet, std::string, std::string_view>;
using date = simple_value<value_kind::date, datetime::date>;
using time_of_day = simple_value<value_kind::time_of_day, datetime::time_of_day>;
using time_point = simple_value<value_kind::time_point, datetime::time_point>;
} // namespace takatori::value
