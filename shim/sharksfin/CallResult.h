#pragma once
#include <memory>
#include <ostream>
#include <string>
#include <string_view>
#include <sharksfin/StatusCode.h>
namespace sharksfin {
class ErrorLocator;
class CallResult {
public:
    CallResult() = default;
    explicit CallResult(ErrorCode c) : code_(c) {}
    [[nodiscard]] ErrorCode result() const noexcept { return code_; }
    [[nodiscard]] std::shared_ptr<ErrorLocator> location() const noexcept { return {}; }
    [[nodiscard]] std::string_view description() const noexcept { return {}; }
private:
    ErrorCode code_{};
};
} // namespace sharksfin
