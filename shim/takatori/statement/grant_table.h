#pragma once
#include <takatori/statement/statement.h>
namespace takatori::statement { class grant_table : public statement {}; }
