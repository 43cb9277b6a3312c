#pragma once
#include <cstddef>
#include <functional>
#include <memory>
#include <ostream>
#include <type_traits>
#include <utility>
namespace takatori::util {
// either owns (shared) or only refers to the object
template <class T>
class maybe_shared_ptr {
public:
    using element_type = T; using pointer = T*; using reference = std::add_lvalue_reference_t<T>;
    constexpr maybe_shared_ptr() noexcept = default;
    constexpr maybe_shared_ptr(std::nullptr_t) noexcept {} //NOLINT
    template <class U, class = std::enable_if_t<std::is_convertible_v<U*, T*>>> maybe_shared_ptr(U* p) noexcept : p_(p) {} //NOLINT
    template <class U, class = std::enable_if_t<std::is_convertible_v<U*, T*>>> maybe_shared_ptr(std::shared_ptr<U> s) noexcept : s_(std::move(s)) { p_ = s_.get(); } //NOLINT
    template <class U, class D, class = std::enable_if_t<std::is_convertible_v<U*, T*>>> maybe_shared_ptr(std::unique_ptr<U, D> s) : s_(std::move(s)) { p_ = s_.get(); } //NOLINT
    template <class U, class = std::enable_if_t<std::is_convertible_v<U*, T*>>> maybe_shared_ptr(maybe_shared_ptr<U> const& o) : s_(o.verif_s()), p_(o.get()) {} //NOLINT
    template <class U, class = std::enable_if_t<std::is_convertible_v<U*, T*>>> maybe_shared_ptr(maybe_shared_ptr<U>&& o) : s_(o.verif_s()), p_(o.get()) { o.reset(); } //NOLINT
    template <class U> maybe_shared_ptr(maybe_shared_ptr<U> const& o, T* p) : s_(o.verif_s()), p_(p) {}
    maybe_shared_ptr(maybe_shared_ptr const&) = default;
    maybe_shared_ptr(maybe_shared_ptr&& o) noexcept : s_(std::move(o.s_)), p_(o.p_) { o.p_ = nullptr; }
    maybe_shared_ptr& operator=(maybe_shared_ptr const&) = default;
    maybe_shared_ptr& operator=(maybe_shared_ptr&& o) noexcept { s_ = std::move(o.s_); auto p = o.p_; o.p_ = nullptr; p_ = p; return *this; }
    ~maybe_shared_ptr() = default;
    [[nodiscard]] T* get() const noexcept { return p_; }
    reference operator*() const noexcept { return *p_; }
    T* operator->() const noexcept { return p_; }
    [[nodiscard]] explicit operator bool() const noexcept { return p_ != nullptr; }
    [[nodiscard]] bool has_value() const noexcept { return p_ != nullptr; }
    [[nodiscard]] bool has_owner() const noexcept { return s_ != nullptr; }
    [[nodiscard]] long use_count() const noexcept { return s_.use_count(); }
    void reset() noexcept { s_.reset(); p_ = nullptr; }
    void reset(T* p) noexcept { s_.reset(); p_ = p; }
    void swap(maybe_shared_ptr& o) noexcept { std::swap(s_, o.s_); std::swap(p_, o.p_); }
    [[nodiscard]] std::shared_ptr<T> ownership() const noexcept { return s_; }
    [[nodiscard]] std::shared_ptr<T> const& verif_s() const noexcept { return s_; }
private:
    std::shared_ptr<T> s_{}; T* p_{};
};
template <class T> maybe_shared_ptr(T*) -> maybe_shared_ptr<T>;
template <class T> maybe_shared_ptr(std::shared_ptr<T>) -> maybe_shared_ptr<T>;
template <class T, class U> bool operator==(maybe_shared_ptr<T> const& a, maybe_shared_ptr<U> const& b) noexcept { return a.get() == b.get(); }
template <class T, class U> bool operator!=(maybe_shared_ptr<T> const& a, maybe_shared_ptr<U> const& b) noexcept { return a.get() != b.get(); }
template <class T> bool operator==(maybe_shared_ptr<T> const& a, std::nullptr_t) noexcept { return a.get() == nullptr; }
template <class T> bool operator!=(maybe_shared_ptr<T> const& a, std::nullptr_t) noexcept { return a.get() != nullptr; }
template <class T> std::ostream& operator<<(std::ostream& out, maybe_shared_ptr<T> const& v) { return out << static_cast<void const*>(v.get()); }
} // namespace takatori::util
