#pragma once
#include <cstdint>
#include <filesystem>
#include <optional>
namespace data_relay_grpc::common {
class blob_session {
public:
    using session_id_type = std::uint64_t;
    using blob_id_type = std::uint64_t;
    using blob_tag_type = std::uint64_t;
    using blob_path_type = std::filesystem::path;
    virtual ~blob_session() = default;
    virtual session_id_type session_id() const noexcept { return 0; }
    virtual void dispose() {}
    virtual std::optional<blob_path_type> find(blob_id_type) const { return std::nullopt; }
    virtual blob_tag_type compute_tag(blob_id_type) const { return 0; }
};
} // namespace data_relay_grpc::common
