#pragma once
#include <cstddef>
#include <optional>
#include <takatori/type/data.h>
namespace takatori::type {
class decimal : public derived_type<decimal, type_kind::decimal> {
public:
    using size_type = std::size_t;
    explicit decimal(std::optional<size_type> precision = {}, std::optional<size_type> scale = 0) : precision_(precision), scale_(scale) {}
    [[nodiscard]] std::optional<size_type> const& precision() const noexcept { return precision_; }
    [[nodiscard]] std::optional<size_type> const& scale() const noexcept { return scale_; }
    [[nodiscard]] std::array<long, 3> verif_params() const noexcept override { return {precision_ ? static_cast<long>(*precision_) : -1, scale_ ? static_cast<long>(*scale_) : -1, 0}; }
private:
    std::optional<size_type> precision_{}; std::optional<size_type> scale_{};
};
} // namespace takatori::type
