#pragma once
#include <functional>
#include <memory>
#include <string>
#include <string_view>
#include <vector>
namespace yugawara::storage {
class index; class table;
// what a table's owner can enumerate
class table_owner {
public:
    void each_table_index(table const&, std::function<void(std::string_view, std::shared_ptr<index const> const&)> const& f) const { for (auto const& i : indices_) f({}, i); }
    std::vector<std::shared_ptr<index const>> indices_{};
};
class table {
public:
    [[nodiscard]] std::string_view simple_name() const noexcept { return name_; }
    [[nodiscard]] std::shared_ptr<table_owner> const& owner() const noexcept { return owner_; }
    std::string name_{}; std::shared_ptr<table_owner> owner_{std::make_shared<table_owner>()};
};
} // namespace yugawara::storage
