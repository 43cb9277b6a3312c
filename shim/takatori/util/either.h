#pragma once
#include <stdexcept>
#include <utility>
#include <variant>
#include <optional>
namespace takatori::util {
template <class E, class V>
class either {
public:
    using error_type = E; using value_type = V;
    either() : v_(std::in_place_index<1>) {}
    either(E e) : v_(std::in_place_index<0>, std::move(e)) {} //NOLINT
    either(V v) : v_(std::in_place_index<1>, std::move(v)) {} //NOLINT
    template <class U, class = std::enable_if_t<std::is_constructible_v<V, U&&> && ! std::is_same_v<std::decay_t<U>, either> && ! std::is_same_v<std::decay_t<U>, E> && ! std::is_same_v<std::decay_t<U>, V>>>
    either(U&& u) : v_(std::in_place_index<1>, std::forward<U>(u)) {} //NOLINT
    [[nodiscard]] bool is_error() const noexcept { return v_.index() == 0; }
    [[nodiscard]] bool is_success() const noexcept { return v_.index() == 1; }
    [[nodiscard]] bool has_value() const noexcept { return is_success(); }
    explicit operator bool() const noexcept { return is_success(); }
    E& error() { return std::get<0>(v_); }
    E const& error() const { return std::get<0>(v_); }
    V& value() & { return std::get<1>(v_); }
    V const& value() const& { return std::get<1>(v_); }
    V&& value() && { return std::move(std::get<1>(v_)); }
    V& get() { return value(); }
    V const& get() const { return value(); }
    V& operator*() { return value(); }
    V const& operator*() const { return value(); }
    V* operator->() { return &value(); }
    V const* operator->() const { return &value(); }
private:
    std::variant<E, V> v_;
};
} // namespace takatori::util
