#pragma once
#include <cstddef>
#include <functional>
#include <memory>
#include <ostream>
#include <utility>
namespace takatori::descriptor {
// an opaque reference; the entity is what yugawara::binding::extract gives
template <int K> class element {
public:
    using reference_type = std::pair<int, void const*>;
    [[nodiscard]] reference_type reference() const noexcept { return {id_, entity_.get()}; }
    element() = default;
    explicit element(int id) : id_(id) {}
    explicit element(std::shared_ptr<void const> e) : entity_(std::move(e)) {}
    [[nodiscard]] int verif_id() const noexcept { return id_; }
    [[nodiscard]] std::shared_ptr<void const> const& verif_entity() const noexcept { return entity_; }
    friend bool operator==(element const& a, element const& b) { return a.id_ == b.id_ && a.entity_ == b.entity_; }
    friend bool operator!=(element const& a, element const& b) { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& o, element const& v) { return o << v.id_; }
private:
    int id_{}; std::shared_ptr<void const> entity_{};
};
using variable = element<1>;
using relation = element<2>;
using function = element<3>;
using aggregate_function = element<4>;
using storage = element<5>;
using schema = element<6>;
using declared_type = element<7>;
} // namespace takatori::descriptor
template <> struct std::hash<std::pair<int, void const*>> { std::size_t operator()(std::pair<int, void const*> const& v) const { return static_cast<std::size_t>(v.first) + std::hash<void const*>()(v.second); } };
template <int K> struct std::hash<takatori::descriptor::element<K>> { std::size_t operator()(takatori::descriptor::element<K> const& v) const { return static_cast<std::size_t>(v.verif_id()) + std::hash<void const*>()(v.verif_entity().get()); } };
