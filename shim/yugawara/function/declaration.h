#pragma once
#include <cstddef>
#include <cstdint>
#include <initializer_list>
#include <memory>
#include <string>
#include <vector>
#include <takatori/type/data.h>
namespace yugawara::function {
struct type_holder {
    template <class T> type_holder(T&& t) : type_(std::make_shared<std::decay_t<T>>(std::forward<T>(t))) {} //NOLINT
    std::shared_ptr<takatori::type::data const> type_{};
};
class declaration {
public:
    using definition_id_type = std::size_t;
    static constexpr std::size_t minimum_system_function_id = 10000, minimum_builtin_function_id = 10000, minimum_user_function_id = 20000;
    explicit declaration(definition_id_type id = 0) : id_(id) {}
    declaration(definition_id_type id, std::string name, type_holder ret, std::initializer_list<type_holder> params) : id_(id), name_(std::move(name)), ret_(std::make_shared<type_holder>(std::move(ret))), params_(params) {}
    [[nodiscard]] definition_id_type definition_id() const noexcept { return id_; }
    struct parameter_list { std::vector<type_holder> const* v; [[nodiscard]] takatori::type::data const& at(std::size_t i) const { return *v->at(i).type_; } [[nodiscard]] std::size_t size() const { return v->size(); } };
    [[nodiscard]] parameter_list parameter_types() const noexcept { return {&params_}; }
    [[nodiscard]] takatori::type::data const& return_type() const noexcept { return *ret_->type_; }
    [[nodiscard]] std::string const& name() const noexcept { return name_; }
private:
    definition_id_type id_{}; std::string name_{}; std::shared_ptr<type_holder> ret_{}; std::vector<type_holder> params_{};
};
}
