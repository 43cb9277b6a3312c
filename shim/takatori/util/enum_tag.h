#pragma once
#include <functional>
#include <utility>
namespace takatori::util {
template <auto K> struct enum_tag_t { using type = decltype(K); static constexpr auto value = K; constexpr enum_tag_t() = default; };
template <auto K> inline constexpr enum_tag_t<K> enum_tag{};
template <auto K, class C, class... A> inline auto enum_tag_callback(C&& c, A&&... a) { return std::forward<C>(c)(enum_tag<K>, std::forward<A>(a)...); }
} // namespace takatori::util
