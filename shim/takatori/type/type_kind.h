#pragma once
#include <cstdlib>
#include <ostream>
#include <string_view>
namespace takatori::type {
enum class type_kind {
    boolean, int1, int2, int4, int8, float4, float8, decimal, character, octet, bit, date, time_of_day, time_point,
    datetime_interval, array, record, table, declared, extension, row_id, row_reference, unknown, blob, clob,
};
inline std::string_view to_string_view(type_kind k) {
    static constexpr char const* n[] = {"boolean", "int1", "int2", "int4", "int8", "float4", "float8", "decimal", "character", "octet", "bit", "date", "time_of_day", "time_point",
        "datetime_interval", "array", "record", "table", "declared", "extension", "row_id", "row_reference", "unknown", "blob", "clob"};
    return n[static_cast<int>(k)];
}
inline std::ostream& operator<<(std::ostream& o, type_kind k) { return o << to_string_view(k); }
} // namespace takatori::type
