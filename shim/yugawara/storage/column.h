#pragma once
#include <memory>
#include <string>
#include <string_view>
#include <takatori/type/data.h>
#include <yugawara/variable/criteria.h>
#include <set>
#include <yugawara/storage/column_value.h>
#include <yugawara/storage/sequence.h>
namespace yugawara::storage {
enum class column_feature { synthesized, hidden, read_only, identity };
class column_feature_set { public: [[nodiscard]] bool contains(column_feature f) const { return s_.count(f) != 0; } std::set<column_feature> s_{}; };
class column {
public:
    column() = default;
    column(std::string n, std::shared_ptr<takatori::type::data const> t, variable::criteria c = {}) : name_(std::move(n)), type_(std::move(t)), criteria_(c) {}
    [[nodiscard]] std::string_view simple_name() const noexcept { return name_; }
    [[nodiscard]] takatori::type::data const& type() const { return *type_; }
    [[nodiscard]] std::shared_ptr<takatori::type::data const> const& shared_type() const { return type_; }
    [[nodiscard]] variable::criteria const& criteria() const { return criteria_; }
    [[nodiscard]] column_value const& default_value() const noexcept { return value_; }
    column& default_value(column_value v) { value_ = std::move(v); return *this; }
    [[nodiscard]] column_feature_set const& features() const noexcept { return features_; }
private:
    column_value value_{}; column_feature_set features_{};
    std::string name_{}; std::shared_ptr<takatori::type::data const> type_{}; variable::criteria criteria_{};
};
} // namespace yugawara::storage
