#pragma once
#include <cstdlib>
#include <unordered_set>
#include <vector>
#include <takatori/descriptor/variable.h>
#include <takatori/relation/expression.h>
#include <takatori/relation/graph.h>
#include <takatori/util/optional_ptr.h>
namespace yugawara::analyzer {
class block {
public:
    struct iterator { std::vector<takatori::relation::expression const*>::const_iterator i; takatori::relation::expression const& operator*() const { return **i; } iterator& operator++() { ++i; return *this; } bool operator!=(iterator const& o) const { return i != o.i; } };
    [[nodiscard]] iterator begin() const { return {e_.begin()}; }
    [[nodiscard]] iterator end() const { return {e_.end()}; }
    [[nodiscard]] std::vector<block> const& downstreams() const { return d_; }
private: std::vector<takatori::relation::expression const*> e_{}; std::vector<block> d_{};
};
using block_graph = std::vector<block>;
struct block_builder { template <class G> static block_graph build(G&) { std::abort(); } };
inline takatori::util::optional_ptr<block const> find_unique_head(block_graph const&) { std::abort(); }
class variable_liveness_info {
public:
    [[nodiscard]] std::unordered_set<takatori::descriptor::variable> const& define() const { return d_; }
    [[nodiscard]] std::unordered_set<takatori::descriptor::variable> const& kill() const { return k_; }
private: std::unordered_set<takatori::descriptor::variable> d_{}, k_{};
};
class variable_liveness_analyzer { public: explicit variable_liveness_analyzer(block_graph const&) {} variable_liveness_info inspect(block const&) { std::abort(); } };
} // namespace yugawara::analyzer
