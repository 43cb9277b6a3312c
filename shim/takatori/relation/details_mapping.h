#pragma once
#include <takatori/descriptor/variable.h>
namespace takatori::relation::details {
class mapping_element {
public:
    mapping_element() = default;
    mapping_element(descriptor::variable s, descriptor::variable d) : s_(std::move(s)), d_(std::move(d)) {}
    [[nodiscard]] descriptor::variable const& source() const noexcept { return s_; }
    [[nodiscard]] descriptor::variable const& destination() const noexcept { return d_; }
private:
    descriptor::variable s_{}, d_{};
};
}
