#pragma once
#include <takatori/statement/statement.h>
namespace takatori::statement { class create_index : public statement {}; }
