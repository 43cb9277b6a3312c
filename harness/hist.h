// Recording of histories: one JSON array of events per schedule, deduplicated.
#pragma once
#include <string>
#include <vector>
#include <map>
#include <set>
#include <iostream>
#include <cstdint>
#include <sstream>
#include <functional>
#include <cstdlib>
#include <cstring>
#include <ctime>
#ifdef VERIF_COOP
#include "coop.h"
#endif
namespace hist {
struct val { std::string s; };
inline std::string j(val const& v) { return v.s; } // written as it is
inline std::string j(bool b) { return b ? "true" : "false"; }
inline std::string j(char const* s) { return std::string("\"") + s + "\""; }
inline std::string j(std::string const& s) { return "\"" + s + "\""; }
inline std::string j(int v) { return std::to_string(v); }
inline std::string j(long v) { return std::to_string(v); }
inline std::string j(long long v) { return std::to_string(v); }
inline std::string j(unsigned v) { return std::to_string(v); }
inline std::string j(unsigned long v) { return std::to_string(v); }
inline std::string arr() { return "[]"; }
template <class... A> std::string arr(A&&... a) { std::string r = "["; bool first = true; ((r += (first ? "" : ",") + j(a), first = false), ...); return r + "]"; }
#ifdef VERIF_COOP
using quiet = coop::quiet;
#else
struct quiet { quiet() {} };
#endif
struct recorder {
    std::string out; std::vector<int> open;
    void raw(std::string const& e) { quiet q; if (! out.empty()) out += ","; out += e; }
    template <class... A> void init(A&&... a) { out.clear(); open.clear(); raw("{\"e\":\"i\",\"a\":" + arr(a...) + "}"); }
    template <class... A> void call(int t, std::string const& op, A&&... a) { quiet q;
        raw("{\"e\":\"c\",\"t\":" + std::to_string(t) + ",\"op\":\"" + op + "\",\"a\":" + arr(a...) + "}"); open.push_back(t);
    }
    template <class... A> void ret(int t, A&&... a) { quiet q;
        raw("{\"e\":\"r\",\"t\":" + std::to_string(t) + ",\"v\":" + arr(a...) + "}");
        for (auto it = open.begin(); it != open.end(); ++it) if (*it == t) { open.erase(it); break; }
    }
    void seqraw(int t, std::string const& op, std::string const& a, std::string const& v) { quiet q;
        raw("{\"e\":\"s\",\"t\":" + std::to_string(t) + ",\"op\":\"" + op + "\",\"a\":" + a + ",\"v\":" + v + "}");
    }
    void end() { std::string b; for (auto t : open) b += (b.empty() ? "" : ",") + std::to_string(t); raw("{\"e\":\"x\",\"b\":[" + b + "]}"); }
    [[nodiscard]] std::string text() const { return "[" + out + "]"; }
};
struct collector {
    std::map<std::string, std::uint64_t> seen; std::uint64_t runs{0}, deadlocks{0}, livelocks{0};
    void add(std::string const& h) { ++seen[h]; ++runs; }
    void dump() const {
        for (auto const& [k, n] : seen) std::cout << "{\"h\":" << k << ",\"n\":" << n << "}\n";
        std::cout << "{\"runs\":" << runs << ",\"deadlocks\":" << deadlocks << ",\"livelocks\":" << livelocks << "}\n";
        std::cout.flush();
    }
};
} // namespace hist
