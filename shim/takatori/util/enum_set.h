// Stand-in for takatori's enum_set (the library is not available offline): a set of enum values over a fixed range.
#pragma once
#include <bitset>
#include <cstddef>
#include <cstdint>
#include <initializer_list>
#include <iterator>
#include <ostream>
#include <type_traits>
namespace takatori::util {
template <class E, E First, E Last>
class enum_set {
public:
    using value_type = E; using size_type = std::size_t;
    static constexpr std::size_t capacity_value = static_cast<std::size_t>(Last) - static_cast<std::size_t>(First) + 1;
    class iterator {
    public:
        using iterator_category = std::forward_iterator_tag; using value_type = E; using difference_type = std::ptrdiff_t; using pointer = E const*; using reference = E;
        constexpr iterator() = default;
        constexpr iterator(std::uint64_t b, std::size_t i) : b_(b), i_(i) { skip(); }
        constexpr E operator*() const { return static_cast<E>(i_ + static_cast<std::size_t>(First)); }
        constexpr iterator& operator++() { ++i_; skip(); return *this; }
        constexpr iterator operator++(int) { auto r = *this; ++*this; return r; }
        friend constexpr bool operator==(iterator const& a, iterator const& b) { return a.i_ == b.i_; }
        friend constexpr bool operator!=(iterator const& a, iterator const& b) { return a.i_ != b.i_; }
    private:
        constexpr void skip() { while (i_ < capacity_value && ! ((b_ >> i_) & 1U)) ++i_; }
        std::uint64_t b_{0}; std::size_t i_{0};
    };
    using const_iterator = iterator;
    constexpr enum_set() noexcept = default;
    constexpr enum_set(std::initializer_list<E> l) { for (auto e : l) insert(e); } //NOLINT
    template <class... A, class = std::enable_if_t<(std::is_same_v<std::decay_t<A>, E> && ...)>>
    constexpr explicit enum_set(E a, A... r) { insert(a); (insert(r), ...); }
    [[nodiscard]] constexpr bool contains(E e) const noexcept { return ((bits_ >> idx(e)) & 1U) != 0; }
    [[nodiscard]] constexpr bool operator[](E e) const noexcept { return contains(e); }
    constexpr enum_set& insert(E e) noexcept { bits_ |= (1ULL << idx(e)); return *this; }
    constexpr enum_set& erase(E e) noexcept { bits_ &= ~(1ULL << idx(e)); return *this; }
    [[nodiscard]] constexpr bool empty() const noexcept { return bits_ == 0; }
    [[nodiscard]] constexpr std::size_t size() const noexcept { std::size_t n = 0; for (auto b = bits_; b != 0; b &= b - 1) ++n; return n; }
    [[nodiscard]] static constexpr std::size_t capacity() noexcept { return capacity_value; }
    constexpr enum_set& clear() noexcept { bits_ = 0; return *this; }
    [[nodiscard]] constexpr iterator begin() const noexcept { return iterator(bits_, 0); }
    [[nodiscard]] constexpr iterator end() const noexcept { return iterator(0, capacity_value); }
    friend constexpr bool operator==(enum_set const& a, enum_set const& b) noexcept { return a.bits_ == b.bits_; }
    friend constexpr bool operator!=(enum_set const& a, enum_set const& b) noexcept { return a.bits_ != b.bits_; }
    friend constexpr enum_set operator|(enum_set a, enum_set const& b) noexcept { a.bits_ |= b.bits_; return a; }
    friend constexpr enum_set operator&(enum_set a, enum_set const& b) noexcept { a.bits_ &= b.bits_; return a; }
    constexpr enum_set& operator|=(enum_set const& b) noexcept { bits_ |= b.bits_; return *this; }
    constexpr enum_set& operator&=(enum_set const& b) noexcept { bits_ &= b.bits_; return *this; }
    friend std::ostream& operator<<(std::ostream& out, enum_set const& v) { out << "{"; for (auto e : v) out << static_cast<std::int64_t>(e) << " "; return out << "}"; }
private:
    static constexpr std::size_t idx(E e) { return static_cast<std::size_t>(e) - static_cast<std::size_t>(First); }
    std::uint64_t bits_{0};
};
} // namespace takatori::util
