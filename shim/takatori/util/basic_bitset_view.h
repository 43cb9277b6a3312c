#pragma once
#include <cstddef>
#include <cstdint>
#include <iterator>
namespace takatori::util {
template <class B> class basic_bitset_view {
public:
    using size_type = std::size_t; using block_pointer = B*; using iterator = B*; using const_iterator = B const*;
    constexpr basic_bitset_view() noexcept = default;
    constexpr basic_bitset_view(B* p, size_type bits) noexcept : p_(p), n_(bits) {}
    [[nodiscard]] constexpr size_type size() const noexcept { return n_; }
    [[nodiscard]] constexpr bool empty() const noexcept { return n_ == 0; }
    [[nodiscard]] constexpr size_type block_size() const noexcept { return (n_ + 7) / 8; }
    [[nodiscard]] constexpr B* block_data() const noexcept { return p_; }
    [[nodiscard]] constexpr bool test(size_type i) const noexcept { return ((static_cast<unsigned char>(p_[i / 8]) >> (i % 8)) & 1U) != 0; }
    [[nodiscard]] constexpr bool operator[](size_type i) const noexcept { return test(i); }
    struct it { B* p; it& operator--() { --p; return *this; } it& operator++() { ++p; return *this; } B& operator*() const { return *p; } bool operator!=(it o) const { return p != o.p; } };
    [[nodiscard]] it begin() const noexcept { return {p_}; }
    [[nodiscard]] it end() const noexcept { return {p_ + block_size()}; }
private:
    B* p_{}; size_type n_{};
};
} // namespace takatori::util
