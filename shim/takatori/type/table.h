#pragma once
#include <takatori/type/data.h>
namespace takatori::type { class table : public derived_type<table, type_kind::table> { public: struct column_type { std::string n{}; std::shared_ptr<data const> t{}; [[nodiscard]] std::string_view name() const { return n; } [[nodiscard]] data const& type() const { return *t; } [[nodiscard]] auto shared_type() const { return t; } }; [[nodiscard]] std::vector<column_type> const& columns() const { return c_; } std::vector<column_type> c_{}; }; }
