#pragma once
#include <sharksfin/StatusCode.h>
