#pragma once
#include <yugawara/variable/nullity.h>
namespace yugawara::variable {
class criteria { public: criteria() = default; criteria(variable::nullity n) : n_(n) {} [[nodiscard]] variable::nullity const& nullity() const noexcept { return n_; } private: variable::nullity n_{}; }; //NOLINT
} // namespace yugawara::variable
