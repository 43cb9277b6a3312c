#pragma once
#include <cstddef>
#include <stdexcept>
#include <type_traits>
#include <ostream>
namespace takatori::util {
template <class T>
class optional_ptr {
public:
    using value_type = T; using pointer = T*; using reference = T&;
    constexpr optional_ptr() noexcept = default;
    constexpr optional_ptr(std::nullptr_t) noexcept {} //NOLINT
    constexpr explicit optional_ptr(T* p) noexcept : p_(p) {}
    constexpr optional_ptr(T& p) noexcept : p_(&p) {} //NOLINT
    template <class U, class = std::enable_if_t<std::is_convertible_v<U*, T*>>> constexpr optional_ptr(optional_ptr<U> const& o) noexcept : p_(o.get()) {} //NOLINT
    [[nodiscard]] constexpr T* get() const noexcept { return p_; }
    constexpr T& operator*() const noexcept { return *p_; }
    constexpr T* operator->() const noexcept { return p_; }
    [[nodiscard]] constexpr explicit operator bool() const noexcept { return p_ != nullptr; }
    [[nodiscard]] constexpr bool has_value() const noexcept { return p_ != nullptr; }
    [[nodiscard]] T& value() const { if (p_ == nullptr) throw std::out_of_range("empty optional_ptr"); return *p_; }
    void reset() noexcept { p_ = nullptr; }
    friend bool operator==(optional_ptr const& a, std::nullptr_t) { return a.p_ == nullptr; }
    friend bool operator!=(optional_ptr const& a, std::nullptr_t) { return a.p_ != nullptr; }
private:
    T* p_{};
};
} // namespace takatori::util
