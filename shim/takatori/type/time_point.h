#pragma once
#include <takatori/type/data.h>
namespace takatori::type {
class time_point : public derived_type<time_point, type_kind::time_point> {
public:
    time_point() = default;
    explicit time_point(with_time_zone_t) : tz_(true) {}
    [[nodiscard]] bool with_time_zone() const noexcept { return tz_; }
    [[nodiscard]] std::array<long, 3> verif_params() const noexcept override { return {tz_ ? 1 : 0, 0, 0}; }
private:
    bool tz_{};
};
} // namespace takatori::type
