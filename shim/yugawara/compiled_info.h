#pragma once
#include <cstdlib>
#include <map>
#include <memory>
#include <takatori/descriptor/variable.h>
#include <takatori/scalar/expression.h>
#include <takatori/type/data.h>
namespace yugawara {
// what the compiler found out about expressions and variables: filled in by the harness
class compiled_info {
public:
    [[nodiscard]] takatori::type::data const& type_of(takatori::scalar::expression const& e) const { auto it = e_.find(&e); if (it == e_.end()) std::abort(); return *it->second; }
    [[nodiscard]] takatori::type::data const& type_of(takatori::descriptor::variable const& v) const { auto it = v_.find(v.reference()); if (it == v_.end()) std::abort(); return *it->second; }
    void verif_set(takatori::scalar::expression const& e, std::shared_ptr<takatori::type::data const> t) { e_[&e] = std::move(t); }
    void verif_set(takatori::descriptor::variable const& v, std::shared_ptr<takatori::type::data const> t) { v_[v.reference()] = std::move(t); }
private:
    std::map<takatori::scalar::expression const*, std::shared_ptr<takatori::type::data const>> e_;
    std::map<takatori::descriptor::variable::reference_type, std::shared_ptr<takatori::type::data const>> v_;
};
} // namespace yugawara
