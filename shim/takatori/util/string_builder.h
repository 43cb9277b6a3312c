#pragma once
#include <sstream>
#include <string>
namespace takatori::util {
class string_builder {
public:
    struct to_string_t {};
    static constexpr to_string_t to_string{};
    string_builder() = default;
    string_builder(string_builder&&) = default;
    string_builder& operator=(string_builder&&) = default;
    template <class T> string_builder& operator<<(T const& v) & { s_ << v; return *this; }
    template <class T> string_builder&& operator<<(T const& v) && { s_ << v; return std::move(*this); }
    string_builder& operator<<(std::ostream& (*f)(std::ostream&)) & { s_ << f; return *this; }
    string_builder&& operator<<(std::ostream& (*f)(std::ostream&)) && { s_ << f; return std::move(*this); }
    std::string operator<<(to_string_t) const& { return s_.str(); }
    std::string operator<<(to_string_t) && { return s_.str(); }
    std::string operator<<(to_string_t) & { return s_.str(); }
    [[nodiscard]] std::string str() const { return s_.str(); }
private:
    std::ostringstream s_{};
};
} // namespace takatori::util
