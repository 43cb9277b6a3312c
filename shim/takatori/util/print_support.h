#pragma once
#include <ostream>
#include <type_traits>
namespace takatori::util {
template <class T> class print_support {
public:
    explicit print_support(T const& v) : v_(v) {}
    friend std::ostream& operator<<(std::ostream& out, print_support const& p) { return out << static_cast<void const*>(&p.v_); }
private:
    T const& v_;
};
template <class T> class print_range_support {
public:
    explicit print_range_support(T const& v) : v_(v) {}
    friend std::ostream& operator<<(std::ostream& out, print_range_support const& p) { return out << "[...]"; }
private:
    T const& v_;
};
} // namespace takatori::util
