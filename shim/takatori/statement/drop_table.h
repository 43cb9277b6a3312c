#pragma once
#include <takatori/statement/statement.h>
namespace takatori::statement { class drop_table : public statement {}; }
