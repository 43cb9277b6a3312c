#pragma once
#include <memory>
#include <shared_mutex>
#include <vector>
#include <yugawara/aggregate/declaration.h>
namespace yugawara::aggregate {
class provider { public: virtual ~provider() = default; };
template <class M> class basic_configurable_provider : public provider {
public:
    void add(declaration d) { decls_.emplace_back(std::make_shared<declaration>(std::move(d))); }
    std::vector<std::shared_ptr<declaration>> decls_{};
};
using configurable_provider = basic_configurable_provider<std::shared_mutex>;
}
