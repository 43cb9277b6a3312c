#pragma once
#include <memory>
#include <optional>
#include <variant>
#include <takatori/value/data.h>
#include <yugawara/function/declaration.h>
#include <yugawara/storage/sequence.h>
namespace yugawara::storage {
enum class column_value_kind { nothing = 0, immediate, sequence, function };
namespace details {
template <column_value_kind K> struct cv { using type = void; };
template <> struct cv<column_value_kind::immediate> { using type = takatori::value::data const; };
template <> struct cv<column_value_kind::sequence> { using type = storage::sequence const; };
template <> struct cv<column_value_kind::function> { using type = function::declaration const; };
}
class column_value {
public:
    column_value() = default;
    column_value(std::shared_ptr<takatori::value::data const> v) : e_(std::move(v)) {} //NOLINT
    column_value(std::shared_ptr<storage::sequence const> v) : e_(std::move(v)) {} //NOLINT
    column_value(std::shared_ptr<function::declaration const> v) : e_(std::move(v)) {} //NOLINT
    [[nodiscard]] column_value_kind kind() const noexcept { return static_cast<column_value_kind>(e_.index()); }
    template <column_value_kind K> [[nodiscard]] auto const& element() const { return std::get<static_cast<std::size_t>(K)>(e_); }
private:
    std::variant<std::monostate, std::shared_ptr<takatori::value::data const>, std::shared_ptr<storage::sequence const>, std::shared_ptr<function::declaration const>> e_{};
};
} // namespace yugawara::storage
