#pragma once
#include <takatori/descriptor/variable.h>
