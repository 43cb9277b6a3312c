#pragma once
#include <takatori/statement/statement.h>
namespace takatori::statement { class drop_index : public statement {}; }
