#pragma once
#include <memory>
#include <shared_mutex>
#include <vector>
#include <yugawara/function/declaration.h>
namespace yugawara::function {
class provider { public: virtual ~provider() = default; };
template <class M> class basic_configurable_provider : public provider {
public:
    std::shared_ptr<declaration> const& add(declaration d) { return decls_.emplace_back(std::make_shared<declaration>(std::move(d))); }
    std::vector<std::shared_ptr<declaration>> decls_{};
};
using configurable_provider = basic_configurable_provider<std::shared_mutex>;
}
