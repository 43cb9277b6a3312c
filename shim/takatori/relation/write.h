#pragma once
#include <takatori/relation/write_kind.h>
#include <takatori/relation/expression.h>
#include <takatori/relation/details_mapping.h>
namespace takatori::relation { class write : public expression {}; }
