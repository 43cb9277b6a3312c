#pragma once
#include <takatori/type/lob.h>
