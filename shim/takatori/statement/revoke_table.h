#pragma once
#include <takatori/statement/statement.h>
namespace takatori::statement { class revoke_table : public statement {}; }
