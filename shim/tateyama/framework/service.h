#pragma once
#include <tateyama/framework/component.h>
