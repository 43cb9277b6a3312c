#pragma once
#include <memory>
#include <vector>
namespace takatori::util {
template <class T>
class reference_vector {
public:
    template <class It> struct iter { It it; T& operator*() const { return **it; } T* operator->() const { return it->get(); } iter& operator++() { ++it; return *this; } bool operator!=(iter const& o) const { return it != o.it; } bool operator==(iter const& o) const { return it == o.it; } };
    void emplace_back(std::unique_ptr<T> p) { v_.emplace_back(std::move(p)); }
    template <class U> void push_back(U&& u) { v_.emplace_back(std::make_unique<std::decay_t<U>>(std::forward<U>(u))); }
    [[nodiscard]] std::size_t size() const noexcept { return v_.size(); }
    [[nodiscard]] bool empty() const noexcept { return v_.empty(); }
    T& operator[](std::size_t i) { return *v_[i]; }
    T const& operator[](std::size_t i) const { return *v_[i]; }
    auto begin() const { return iter<decltype(v_.begin())>{v_.begin()}; }
    auto end() const { return iter<decltype(v_.begin())>{v_.end()}; }
private:
    std::vector<std::unique_ptr<T>> v_{};
};
}
