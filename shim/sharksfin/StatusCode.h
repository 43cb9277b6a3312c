#pragma once
#include <cstdint>
#include <ostream>
#include <string_view>
namespace sharksfin {
enum class StatusCode : std::int64_t {
    OK = 0, NOT_FOUND = 1, ALREADY_EXISTS = 2, USER_ROLLBACK = 3, WAITING_FOR_OTHER_TRANSACTION = 4, CONCURRENT_OPERATION = 5, PREMATURE = 6,
    ERR_UNKNOWN = -1, ERR_IO_ERROR = -2, ERR_INVALID_ARGUMENT = -3, ERR_INVALID_STATE = -4, ERR_UNSUPPORTED = -5, ERR_USER_ERROR = -6,
    ERR_ABORTED = -7, ERR_ABORTED_RETRYABLE = -8, ERR_TIME_OUT = -9, ERR_NOT_IMPLEMENTED = -10, ERR_ILLEGAL_OPERATION = -11,
    ERR_CONFLICT_ON_WRITE_PRESERVE = -12, ERR_WRITE_WITHOUT_WRITE_PRESERVE = -13, ERR_INACTIVE_TRANSACTION = -14,
    ERR_BLOCKED_BY_CONCURRENT_OPERATION = -15, ERR_RESOURCE_LIMIT_REACHED = -16, ERR_INVALID_KEY_LENGTH = -17, ERR_READ_AREA_VIOLATION = -18,
};
inline std::string_view to_string_view(StatusCode) { return "status"; }
inline std::ostream& operator<<(std::ostream& o, StatusCode v) { return o << static_cast<std::int64_t>(v); }
enum class ErrorCode : std::int64_t { OK = 0, ERROR = -1, KVS_KEY_ALREADY_EXISTS = 1, KVS_KEY_NOT_FOUND, CC_LTX_WRITE_ERROR, CC_LTX_READ_ERROR, CC_OCC_WRITE_ERROR, CC_OCC_READ_ERROR };
inline std::ostream& operator<<(std::ostream& o, ErrorCode v) { return o << static_cast<std::int64_t>(v); }
} // namespace sharksfin
