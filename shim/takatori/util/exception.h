#pragma once
#include <exception>
#include <type_traits>
#include <utility>
#include <ostream>
#include <boost/exception/all.hpp>
namespace takatori::util {
struct verif_no_trace {};
inline std::ostream& operator<<(std::ostream& out, verif_no_trace const&) { return out << "(no trace)"; }
template <class T> [[noreturn]] void throw_exception(T&& e) { throw std::forward<T>(e); }
template <class T> verif_no_trace const* find_trace(T const&) { return nullptr; }
template <class T> void print_trace(std::ostream&, T const&) {}
} // namespace takatori::util
