#pragma once
#include <functional>
#include <takatori/descriptor/variable.h>
#include <yugawara/storage/column.h>
#include <yugawara/storage/index.h>
namespace yugawara::binding {
class factory {
public:
    takatori::descriptor::variable operator()(storage::column const& c) const { return takatori::descriptor::variable{std::shared_ptr<void const>(std::shared_ptr<void>{}, &c)}; }
    takatori::descriptor::variable operator()(std::reference_wrapper<storage::column const> c) const { return (*this)(c.get()); }
    takatori::descriptor::storage operator()(storage::index const& c) const { return takatori::descriptor::storage{std::shared_ptr<void const>(std::shared_ptr<void>{}, &c)}; }
};
} // namespace yugawara::binding
