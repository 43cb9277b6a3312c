#pragma once
#include <filesystem>
#include <string_view>
namespace tateyama::api::server {
class blob_info {
public:
    virtual ~blob_info() = default;
    [[nodiscard]] virtual std::string_view channel_name() const noexcept = 0;
    [[nodiscard]] virtual std::filesystem::path path() const noexcept = 0;
    [[nodiscard]] virtual bool is_temporary() const noexcept = 0;
    virtual void dispose() = 0;
};
} // namespace tateyama::api::server
