#pragma once
#define trace_scope_name(name) static_cast<void>(0)
#define trace_scope static_cast<void>(0)
