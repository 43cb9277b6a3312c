#pragma once
#include <mutex>
#include <shared_mutex>
namespace yugawara::util { template <class M> using maybe_shared_lock = std::shared_lock<M>; }
