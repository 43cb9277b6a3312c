#pragma once
#include <sharksfin/api.h>
