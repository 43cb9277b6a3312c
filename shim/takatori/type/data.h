#pragma once
#include <array>
#include <memory>
#include <ostream>
#include <takatori/type/type_kind.h>
namespace takatori::type {
class data {
public:
    virtual ~data() = default;
    [[nodiscard]] virtual type_kind kind() const noexcept = 0;
    [[nodiscard]] virtual std::unique_ptr<data> clone() const = 0;
    friend std::ostream& operator<<(std::ostream& o, data const& d) { return o << d.kind(); }
    // the parameters of a type, for equality
    [[nodiscard]] virtual std::array<long, 3> verif_params() const noexcept { return {}; }
    friend bool operator==(data const& a, data const& b) { return a.kind() == b.kind() && a.verif_params() == b.verif_params(); }
    friend bool operator!=(data const& a, data const& b) { return !(a == b); }
};
struct varying_t { explicit varying_t() = default; operator bool() const { return true; } };
inline constexpr varying_t varying{};
struct with_time_zone_t { explicit with_time_zone_t() = default; operator bool() const { return true; } };
inline constexpr with_time_zone_t with_time_zone{};
template <type_kind K> class simple_type : public data {
public:
    static constexpr type_kind tag = K;
    [[nodiscard]] type_kind kind() const noexcept override { return K; }
    [[nodiscard]] std::unique_ptr<data> clone() const override { return std::make_unique<simple_type>(*this); }
};
template <class D, type_kind K> class derived_type : public data {
public:
    static constexpr type_kind tag = K;
    [[nodiscard]] type_kind kind() const noexcept override { return K; }
    [[nodiscard]] std::unique_ptr<data> clone() const override { return std::make_unique<D>(static_cast<D const&>(*this)); }
};
} // namespace takatori::type
