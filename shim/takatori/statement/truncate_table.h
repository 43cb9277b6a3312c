#pragma once
#include <takatori/statement/statement.h>
namespace takatori::statement { class truncate_table : public statement {}; }
