#pragma once
#include <yugawara/analyzer/block.h>
