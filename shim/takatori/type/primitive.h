#pragma once
#include <takatori/type/data.h>
namespace takatori::type { using boolean = simple_type<type_kind::boolean>; using int1 = simple_type<type_kind::int1>; using int2 = simple_type<type_kind::int2>; using int4 = simple_type<type_kind::int4>; using int8 = simple_type<type_kind::int8>; using float4 = simple_type<type_kind::float4>; using float8 = simple_type<type_kind::float8>; using unknown = simple_type<type_kind::unknown>; using row_id = simple_type<type_kind::row_id>; }
