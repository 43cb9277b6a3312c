#pragma once
#include <cstddef>
#include <optional>
#include <takatori/type/data.h>
namespace takatori::type {
class octet : public derived_type<octet, type_kind::octet> {
public:
    using size_type = std::size_t;
    explicit octet(varying_t, std::optional<size_type> length = {}) : varying_(true), length_(length) {}
    explicit octet(std::optional<size_type> length) : length_(length) {}
    explicit octet(size_type length) : length_(length) {}
    [[nodiscard]] bool varying() const noexcept { return varying_; }
    [[nodiscard]] std::optional<size_type> const& length() const noexcept { return length_; }
    [[nodiscard]] std::array<long, 3> verif_params() const noexcept override { return {varying_ ? 1 : 0, length_ ? static_cast<long>(*length_) : -1, 0}; }
private:
    bool varying_{}; std::optional<size_type> length_{};
};
} // namespace takatori::type
