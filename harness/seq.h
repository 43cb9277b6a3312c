// helpers of sequential recording harnesses: one JSON event per line
#pragma once
#include <cstdint>
#include <cstdio>
#include <iostream>
#include <sstream>
#include <string>
#include <string_view>
#include <vector>

inline std::string unhex(std::string const& s) { // "-" is the empty string
    std::string r;
    if (s == "-") return r;
    for (std::size_t i = 0; i + 1 < s.size(); i += 2) r.push_back(static_cast<char>(std::stoi(s.substr(i, 2), nullptr, 16)));
    return r;
}
inline std::string jb(std::string_view s) { // bytes as JSON array of integers
    std::string r = "[";
    for (std::size_t i = 0; i < s.size(); ++i) { if (i) r += ","; r += std::to_string(static_cast<unsigned>(static_cast<unsigned char>(s[i]))); }
    return r + "]";
}
inline std::string js(std::string_view s) { // JSON string (plain ASCII expected)
    std::string r = "\"";
    for (char c : s) {
        auto u = static_cast<unsigned char>(c);
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (u < 0x20 || u >= 0x7f) { char b[8]; std::snprintf(b, sizeof b, "<%02x>", u); r += b; }
        else r += c;
    }
    return r + "\"";
}
inline void ev_init(std::string const& a = "") { std::cout << "{\"e\":\"i\",\"a\":[" << a << "]}" << std::endl; }
inline void ev(std::string const& op, std::string const& a, std::string const& v) {
    std::cout << "{\"e\":\"s\",\"op\":\"" << op << "\",\"a\":[" << a << "],\"v\":" << v << "}\n";
    std::cout.flush();
}
