#pragma once
#include <type_traits>
#include <memory>
namespace takatori::util {
template <class T, class U> std::conditional_t<std::is_const_v<U>, T const, T>& unsafe_downcast(U& u) noexcept { return static_cast<std::conditional_t<std::is_const_v<U>, T const, T>&>(u); }
template <class T, class U> std::conditional_t<std::is_const_v<U>, T const, T>* unsafe_downcast(U* u) noexcept { return static_cast<std::conditional_t<std::is_const_v<U>, T const, T>*>(u); }
template <class T, class U> std::remove_reference_t<T>&& unsafe_downcast(U&& u, std::enable_if_t<! std::is_lvalue_reference_v<U&&> && ! std::is_pointer_v<std::decay_t<U>>>* = nullptr) noexcept { return static_cast<std::remove_reference_t<T>&&>(u); }
template <class T, class U> std::unique_ptr<T> unsafe_downcast(std::unique_ptr<U>&& u) noexcept { return std::unique_ptr<T>(static_cast<T*>(u.release())); }
template <class T, class U> auto downcast(U* u) noexcept { return dynamic_cast<std::conditional_t<std::is_const_v<U>, T const, T>*>(u); }
template <class T, class U> auto& downcast(U& u) { return dynamic_cast<std::conditional_t<std::is_const_v<U>, T const, T>&>(u); }
} // namespace takatori::util
