#pragma once
#include <cstdint>
#include <memory>
#include <optional>
#include <ostream>
#include <string>
#include <string_view>
namespace yugawara::storage {
class sequence {
public:
    using definition_id_type = std::uint64_t;
    using value_type = std::int64_t;
    static constexpr value_type default_initial_value = 0;
    static constexpr value_type default_increment_value = 1;
    static constexpr value_type default_min_value = 0;
    static constexpr value_type default_max_value = INT64_MAX;
    static constexpr bool default_cycle = true;
    explicit sequence(std::optional<definition_id_type> id = {}, std::string name = {}, value_type initial = 0, value_type incr = 1, value_type mn = 0, value_type mx = INT64_MAX, bool cyc = true)
        : id_(id), name_(std::move(name)), initial_(initial), incr_(incr), min_(mn), max_(mx), cycle_(cyc) {}
    [[nodiscard]] std::optional<definition_id_type> definition_id() const noexcept { return id_; }
    sequence& definition_id(std::optional<definition_id_type> v) noexcept { id_ = v; return *this; }
    [[nodiscard]] std::string_view simple_name() const noexcept { return name_; }
    [[nodiscard]] value_type initial_value() const noexcept { return initial_; }
    [[nodiscard]] value_type increment_value() const noexcept { return incr_; }
    [[nodiscard]] value_type min_value() const noexcept { return min_; }
    [[nodiscard]] value_type max_value() const noexcept { return max_; }
    [[nodiscard]] bool cycle() const noexcept { return cycle_; }
private:
    std::optional<definition_id_type> id_; std::string name_; value_type initial_, incr_, min_, max_; bool cycle_;
};
} // namespace yugawara::storage
