#pragma once
#include <cstdlib>
namespace takatori::util { [[noreturn]] inline void fail() { std::abort(); } template <class T> [[noreturn]] void fail(T&&) { std::abort(); } }
