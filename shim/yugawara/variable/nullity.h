#pragma once
namespace yugawara::variable {
class nullity { public: constexpr nullity() = default; explicit constexpr nullity(bool n) : n_(n) {} [[nodiscard]] constexpr bool nullable() const noexcept { return n_; } private: bool n_{true}; };
inline constexpr nullity nullable{true};
} // namespace yugawara::variable
