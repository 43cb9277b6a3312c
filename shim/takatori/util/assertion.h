#pragma once
#include <cstdlib>
namespace takatori::util { inline bool verif_assert(bool b) { if (! b) std::abort(); return b; } }
#ifndef BOOST_ASSERT
#include <boost/assert.hpp>
#endif
#define TAKATORI_ASSERT(x) ((void)(x))
