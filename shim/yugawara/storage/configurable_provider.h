#pragma once
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <string_view>
#include <yugawara/storage/index.h>
#include <yugawara/storage/sequence.h>
#include <yugawara/storage/table.h>
namespace yugawara::storage {
class provider { public: virtual ~provider() = default; };
class configurable_provider : public provider {
public:
    [[nodiscard]] std::shared_ptr<table const> find_table(std::string_view) const { return {}; }
    [[nodiscard]] std::shared_ptr<index const> find_index(std::string_view n) const { auto it = indices_.find(std::string{n}); return it == indices_.end() ? nullptr : it->second; }
    [[nodiscard]] std::shared_ptr<sequence const> find_sequence(std::string_view n) const { auto it = sequences_.find(std::string{n}); return it == sequences_.end() ? nullptr : it->second; }
    void each_index(std::function<void(std::string_view, std::shared_ptr<index const> const&)> const& f) const { for (auto& [k, v] : indices_) f(k, v); }
    void each_sequence(std::function<void(std::string_view, std::shared_ptr<sequence const> const&)> const& f) const { for (auto& [k, v] : sequences_) f(k, v); }
    std::shared_ptr<sequence> const& add_sequence(std::shared_ptr<sequence> s, bool = true) { auto n = std::string{s->simple_name()}; return sequences_[n] = std::move(s); }
    bool remove_sequence(std::string_view n) { return sequences_.erase(std::string{n}) != 0; }
    std::map<std::string, std::shared_ptr<index>> indices_{};
    std::map<std::string, std::shared_ptr<sequence>> sequences_{};
};
} // namespace yugawara::storage
