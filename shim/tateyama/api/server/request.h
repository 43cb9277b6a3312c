#pragma once
#include <cstdint>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <any>
#include <chrono>
#include <map>
namespace tateyama::api::server {
class blob_info;
enum class user_type { administrator, standard };
class session_info {
public:
    using id_type = std::size_t;
    virtual ~session_info() = default;
    [[nodiscard]] virtual id_type session_id() const noexcept { return 0; }
    [[nodiscard]] virtual std::string_view label() const noexcept { return {}; }
    [[nodiscard]] virtual std::string_view application_name() const noexcept { return {}; }
    [[nodiscard]] virtual std::optional<std::string_view> username() const noexcept = 0;
    [[nodiscard]] virtual enum user_type user_type() const noexcept = 0;
};
class request {
public:
    virtual ~request() = default;
    [[nodiscard]] virtual std::size_t session_id() const { return 0; }
    [[nodiscard]] virtual std::size_t service_id() const { return 0; }
    [[nodiscard]] virtual std::size_t local_id() const { return 0; }
    [[nodiscard]] virtual std::string_view payload() const { return {}; }
    [[nodiscard]] virtual class session_info const& session_info() const noexcept = 0;
};
}
