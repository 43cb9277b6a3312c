// Stand-ins for the process-wide objects the engine looks up through jogasaki::global.
#pragma once
#include <jogasaki/configuration.h>
#include <jogasaki/executor/global.h>
#include <jogasaki/memory/page_pool.h>
namespace jogasaki::global {
takatori::util::maybe_shared_ptr<configuration> const& config_pool(takatori::util::maybe_shared_ptr<configuration> arg) {
    static auto c = takatori::util::maybe_shared_ptr<configuration>(std::make_shared<configuration>());
    if (arg) c = std::move(arg);
    return c;
}
#ifndef VERIF_NO_PAGE_POOL
memory::page_pool& page_pool(pool_operation op) {
    static std::unique_ptr<memory::page_pool> pool = std::make_unique<memory::page_pool>();
    if (op == pool_operation::reset) pool = std::make_unique<memory::page_pool>();
    return *pool;
}
#endif
} // namespace jogasaki::global
