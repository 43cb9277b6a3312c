// Textual scenarios:  "<kind> <init args...> : op a b ; op c | op ; op"   threads separated by |, operations by ;
#pragma once
#include <string>
#include <vector>
#include <sstream>
#include <iostream>
#include "explore.h"
namespace prog {
using op = std::vector<std::string>;
struct program { std::vector<std::string> init; std::vector<std::vector<op>> threads; };
inline std::vector<std::string> split(std::string const& s, char c) {
    std::vector<std::string> r; std::string cur; std::istringstream is(s);
    while (std::getline(is, cur, c)) r.push_back(cur);
    return r;
}
inline std::vector<std::string> words(std::string const& s) { std::vector<std::string> r; std::istringstream is(s); std::string w; while (is >> w) r.push_back(w); return r; }
inline program parse(std::string const& line) {
    program p; auto k = line.find(':');
    p.init = words(line.substr(0, k));
    for (auto& th : split(line.substr(k + 1), '|')) {
        std::vector<op> ops;
        for (auto& o : split(th, ';')) { auto w = words(o); if (! w.empty()) ops.push_back(w); }
        p.threads.push_back(ops);
    }
    return p;
}
// reads scenarios "dfs_bound dfs_max random_runs seconds\n<program>" from stdin until EOF
template <class Make> int drive(Make make, std::uint64_t seed) {
    std::string a, b; hist::collector col; std::uint64_t complete = 0, n = 0;
    while (std::getline(std::cin, a) && std::getline(std::cin, b)) {
        std::istringstream is(a); explore::budget bu{}; is >> bu.dfs_bound >> bu.dfs_max >> bu.random_runs >> bu.seconds;
        auto p = parse(b);
        complete += explore::run_all([&](hist::recorder& rec) { return make(p, rec); }, col, bu, seed + n) ? 1 : 0;
        ++n;
    }
    col.dump();
    std::cout << "{\"complete\":" << complete << ",\"programs\":" << n << "}" << std::endl;
    std::cout.flush();
    _Exit(0);
}
} // namespace prog
