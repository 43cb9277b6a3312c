#pragma once
#include <takatori/relation/expression.h>
namespace takatori::relation { class emit : public expression { public: class column {}; }; }
