#pragma once
#include <functional>
#include <memory>
#include <string>
#include <string_view>
#include <vector>
#include <takatori/relation/sort_direction.h>
#include <yugawara/storage/column.h>
#include <yugawara/storage/table.h>
namespace yugawara::storage {
class index {
public:
    class key { public: key(column const& c, takatori::relation::sort_direction d = takatori::relation::sort_direction::ascendant) : c_(&c), d_(d) {} [[nodiscard]] class column const& column() const { return *c_; } [[nodiscard]] takatori::relation::sort_direction direction() const { return d_; } private: class column const* c_; takatori::relation::sort_direction d_; }; //NOLINT
    using column_ref = std::reference_wrapper<class column const>;
    index() = default;
    explicit index(std::string n) : name_(std::move(n)) {}
    index(std::string n, std::vector<key> k, std::vector<column_ref> v) : name_(std::move(n)), keys_(std::move(k)), values_(std::move(v)) {}
    [[nodiscard]] std::string_view simple_name() const noexcept { return name_; }
    [[nodiscard]] std::vector<key> const& keys() const { return keys_; }
    [[nodiscard]] std::vector<column_ref> const& values() const { return values_; }
    [[nodiscard]] class table const& table() const noexcept { return *table_; }
    std::shared_ptr<class table> table_{std::make_shared<class table>()};
    friend bool operator==(index const& a, index const& b) { return &a == &b; }
private:
    std::string name_{}; std::vector<key> keys_{}; std::vector<column_ref> values_{};
};
} // namespace yugawara::storage
