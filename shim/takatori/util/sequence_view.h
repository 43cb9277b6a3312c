#pragma once
#include <cstddef>
#include <iterator>
#include <vector>
#include <memory>
#include <initializer_list>
#include <ostream>
namespace takatori::util {
template <class T>
class sequence_view {
public:
    using value_type = std::remove_const_t<T>; using iterator = T*; using const_iterator = T const*; using reference = T&;
    constexpr sequence_view() noexcept = default;
    constexpr sequence_view(T* b, T* e) noexcept : b_(b), n_(static_cast<std::size_t>(e - b)) {}
    constexpr sequence_view(T* b, std::size_t n) noexcept : b_(b), n_(n) {}
    constexpr explicit sequence_view(T* b) noexcept : b_(b), n_(1) {}
    template <class U, class A, class = std::enable_if_t<std::is_convertible_v<U (*)[], T (*)[]>>> sequence_view(std::vector<U, A>& v) noexcept : b_(v.data()), n_(v.size()) {} //NOLINT
    template <class U, class A, class = std::enable_if_t<std::is_convertible_v<U const (*)[], T (*)[]>>> sequence_view(std::vector<U, A> const& v) noexcept : b_(v.data()), n_(v.size()) {} //NOLINT
    template <class U, class = std::enable_if_t<std::is_convertible_v<U (*)[], T (*)[]>>> constexpr sequence_view(sequence_view<U> const& o) noexcept : b_(o.begin()), n_(o.size()) {} //NOLINT
    [[nodiscard]] constexpr T* begin() const noexcept { return b_; }
    [[nodiscard]] constexpr T* end() const noexcept { return b_ + n_; }
    [[nodiscard]] constexpr T* data() const noexcept { return b_; }
    [[nodiscard]] constexpr std::size_t size() const noexcept { return n_; }
    [[nodiscard]] constexpr bool empty() const noexcept { return n_ == 0; }
    constexpr T& operator[](std::size_t i) const noexcept { return b_[i]; }
    [[nodiscard]] T& at(std::size_t i) const { return b_[i]; }
    [[nodiscard]] T& front() const { return b_[0]; }
    [[nodiscard]] T& back() const { return b_[n_ - 1]; }
private:
    T* b_{}; std::size_t n_{};
};
template <class T> std::ostream& operator<<(std::ostream& out, sequence_view<T> v) { out << "["; bool f = true; for (auto&& e : v) { if (! f) out << ", "; f = false; out << e; } return out << "]"; }
} // namespace takatori::util
