#pragma once
#include <takatori/type/data.h>
namespace takatori::type { using date = simple_type<type_kind::date>; }
