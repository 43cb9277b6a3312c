#pragma once
#include <vector>
#include <takatori/statement/statement.h>
#include <takatori/relation/write_kind.h>
#include <takatori/descriptor/variable.h>
#include <takatori/descriptor/storage.h>
#include <takatori/scalar/expression.h>
#include <takatori/util/reference_vector.h>
namespace takatori::statement {
class write : public statement {
public:
    using operator_kind_type = relation::write_kind;
    using column = descriptor::variable;
    class tuple {
    public:
        using element_type = scalar::expression;
        [[nodiscard]] util::reference_vector<scalar::expression>& elements() noexcept { return elements_; }
        [[nodiscard]] util::reference_vector<scalar::expression> const& elements() const noexcept { return elements_; }
    private:
        util::reference_vector<scalar::expression> elements_{};
    };
    [[nodiscard]] std::vector<column> const& columns() const noexcept { return columns_; }
    [[nodiscard]] std::vector<tuple> const& tuples() const noexcept { return tuples_; }
private:
    std::vector<column> columns_{};
    std::vector<tuple> tuples_{};
};
}
