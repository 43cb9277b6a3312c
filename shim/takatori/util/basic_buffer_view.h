#pragma once
#include <cstddef>
namespace takatori::util {
template <class T> class basic_buffer_view {
public:
    using value_type = T; using size_type = std::size_t; using difference_type = std::ptrdiff_t; using pointer = T*; using const_pointer = T const*;
    using reference = T&; using const_reference = T const&; using iterator = T*; using const_iterator = T const*;
    constexpr basic_buffer_view() noexcept = default;
    constexpr basic_buffer_view(pointer p, size_type n) noexcept : p_(p), n_(n) {}
    [[nodiscard]] constexpr pointer data() const noexcept { return p_; }
    [[nodiscard]] constexpr size_type size() const noexcept { return n_; }
    [[nodiscard]] constexpr bool empty() const noexcept { return n_ == 0; }
    [[nodiscard]] constexpr iterator begin() const noexcept { return p_; }
    [[nodiscard]] constexpr iterator end() const noexcept { return p_ + n_; }
    [[nodiscard]] constexpr const_iterator cbegin() const noexcept { return p_; }
    [[nodiscard]] constexpr const_iterator cend() const noexcept { return p_ + n_; }
    [[nodiscard]] constexpr reference operator[](size_type i) const noexcept { return p_[i]; }
private:
    pointer p_{}; size_type n_{};
};
} // namespace takatori::util
