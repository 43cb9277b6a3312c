#pragma once
#include <cstdint>
#include <ostream>
namespace sharksfin {
class TransactionState {
public:
    enum class StateKind : std::int64_t { UNKNOWN = 0, WAITING_START, STARTED, WAITING_CC_COMMIT, ABORTED, WAITING_DURABLE, DURABLE };
    constexpr TransactionState() = default;
    constexpr explicit TransactionState(StateKind k) : kind_(k) {}
    [[nodiscard]] constexpr StateKind state_kind() const noexcept { return kind_; }
private:
    StateKind kind_{StateKind::UNKNOWN};
};
inline std::ostream& operator<<(std::ostream& o, TransactionState::StateKind v) { return o << static_cast<std::int64_t>(v); }
inline std::ostream& operator<<(std::ostream& o, TransactionState v) { return o << v.state_kind(); }
} // namespace sharksfin
