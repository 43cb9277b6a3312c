#pragma once
#include <takatori/type/primitive.h>
