#pragma once
#include <takatori/statement/statement_kind.h>
namespace takatori::statement { class statement { public: virtual ~statement() = default; [[nodiscard]] virtual statement_kind kind() const noexcept { return statement_kind::empty; } }; }
