#pragma once
#include <takatori/relation/expression.h>
namespace takatori::relation::step { class offer : public expression {}; class take_flat : public expression {}; }
