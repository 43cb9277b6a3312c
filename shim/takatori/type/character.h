#pragma once
#include <cstddef>
#include <optional>
#include <takatori/type/data.h>
namespace takatori::type {
class character : public derived_type<character, type_kind::character> {
public:
    using size_type = std::size_t;
    explicit character(varying_t, std::optional<size_type> length = {}) : varying_(true), length_(length) {}
    explicit character(std::optional<size_type> length) : length_(length) {}
    explicit character(size_type length) : length_(length) {}
    [[nodiscard]] bool varying() const noexcept { return varying_; }
    [[nodiscard]] std::optional<size_type> const& length() const noexcept { return length_; }
    [[nodiscard]] std::array<long, 3> verif_params() const noexcept override { return {varying_ ? 1 : 0, length_ ? static_cast<long>(*length_) : -1, 0}; }
private:
    bool varying_{}; std::optional<size_type> length_{};
};
} // namespace takatori::type
