#pragma once
#include <cstddef>
#include <initializer_list>
#include <memory>
#include <string>
#include <string_view>
#include <vector>
#include <takatori/type/data.h>
namespace yugawara::aggregate {
struct type_holder {
    template <class T> type_holder(T&& t) : type_(std::make_shared<std::decay_t<T>>(std::forward<T>(t))) {} //NOLINT
    std::shared_ptr<takatori::type::data const> type_{};
};
class declaration {
public:
    using definition_id_type = std::size_t;
    static constexpr std::string_view name_suffix_distinct = "$distinct";
    static constexpr std::size_t minimum_system_function_id = 10000, minimum_builtin_function_id = 10000, minimum_user_function_id = 20000;
    declaration(definition_id_type id, std::string name, type_holder ret, std::initializer_list<type_holder> params, bool incremental = false) : id_(id), name_(std::move(name)), ret_(std::move(ret)), params_(params), incremental_(incremental) {}
    [[nodiscard]] definition_id_type definition_id() const noexcept { return id_; }
    [[nodiscard]] std::string const& name() const noexcept { return name_; }
    [[nodiscard]] takatori::type::data const& return_type() const { return *ret_.type_; }
    [[nodiscard]] std::vector<type_holder> const& parameters() const { return params_; }
private:
    definition_id_type id_{}; std::string name_{}; type_holder ret_; std::vector<type_holder> params_{}; bool incremental_{};
};
}
