#pragma once
#include <yugawara/compiled_info.h>
namespace yugawara { class compiler_result {}; }
