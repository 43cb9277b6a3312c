#pragma once
#include <ostream>
namespace takatori::relation {
enum class write_kind { insert, update, delete_, insert_overwrite, insert_skip };
inline std::ostream& operator<<(std::ostream& o, write_kind k) { return o << static_cast<int>(k); }
} // namespace takatori::relation
