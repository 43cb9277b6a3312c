#pragma once
#include <cstddef>
#include <optional>
#include <takatori/type/data.h>
namespace takatori::type {
class bit : public derived_type<bit, type_kind::bit> {
public:
    using size_type = std::size_t;
    explicit bit(varying_t, std::optional<size_type> length = {}) : varying_(true), length_(length) {}
    explicit bit(std::optional<size_type> length) : length_(length) {}
    explicit bit(size_type length) : length_(length) {}
    [[nodiscard]] bool varying() const noexcept { return varying_; }
    [[nodiscard]] std::optional<size_type> const& length() const noexcept { return length_; }
private:
    bool varying_{}; std::optional<size_type> length_{};
};
} // namespace takatori::type
