#pragma once
#include <memory>
#include <limestone/api/blob_file.h>
#include <limestone/api/blob_pool.h>
#include <limestone/api/limestone_exception.h>
namespace limestone::api {
class datastore {
public:
    virtual ~datastore() = default;
    [[nodiscard]] virtual std::unique_ptr<blob_pool> acquire_blob_pool() = 0;
    [[nodiscard]] virtual blob_file get_blob_file(blob_id_type reference) = 0;
    [[nodiscard]] virtual blob_reference_tag_type generate_reference_tag(blob_id_type blob_id, std::uint64_t transaction_id) = 0;
};
} // namespace limestone::api
