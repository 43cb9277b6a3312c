#pragma once
#include <takatori/type/data.h>
namespace takatori::type {
class time_of_day : public derived_type<time_of_day, type_kind::time_of_day> {
public:
    time_of_day() = default;
    explicit time_of_day(with_time_zone_t) : tz_(true) {}
    [[nodiscard]] bool with_time_zone() const noexcept { return tz_; }
    [[nodiscard]] std::array<long, 3> verif_params() const noexcept override { return {tz_ ? 1 : 0, 0, 0}; }
private:
    bool tz_{};
};
} // namespace takatori::type
