#pragma once
#include <ostream>
namespace takatori::relation {
enum class sort_direction { ascendant, descendant };
inline std::ostream& operator<<(std::ostream& o, sort_direction k) { return o << static_cast<int>(k); }
} // namespace takatori::relation
