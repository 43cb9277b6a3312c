#pragma once
#include <functional>
#include <yugawara/schema/declaration.h>
#include <yugawara/storage/index.h>
#include <yugawara/storage/table.h>
namespace yugawara::storage {
class prototype_processor { public: using diagnostic_type = int; using diagnostic_consumer_type = std::function<void(diagnostic_type)>; virtual ~prototype_processor() = default; };
}
