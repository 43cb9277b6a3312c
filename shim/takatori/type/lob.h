#pragma once
#include <optional>
#include <takatori/type/data.h>
namespace takatori::type {
class blob : public derived_type<blob, type_kind::blob> { public: blob() = default; explicit blob(varying_t) {} };
class clob : public derived_type<clob, type_kind::clob> { public: clob() = default; explicit clob(varying_t) {} };
} // namespace takatori::type
