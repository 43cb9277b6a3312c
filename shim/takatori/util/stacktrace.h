#pragma once
#include "exception.h"
#ifndef BOOST_STACKTRACE_USE_NOOP
#define BOOST_STACKTRACE_USE_NOOP
#endif
#include <boost/stacktrace.hpp>
