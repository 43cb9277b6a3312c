#pragma once
#include <cstdint>
#include <string>
#include <string_view>
#include <boost/filesystem/path.hpp>
namespace limestone::api {
using blob_id_type = std::uint64_t;
using blob_reference_tag_type = std::uint64_t;
class blob_file;
class datastore;
class blob_pool {
public:
    virtual ~blob_pool() = default;
    virtual void release() = 0;
    virtual blob_id_type register_file(boost::filesystem::path const& file, bool is_temporary_file) = 0;
    virtual blob_id_type register_data(std::string_view data) = 0;
    virtual blob_id_type duplicate_data(blob_id_type reference) = 0;
    virtual blob_reference_tag_type generate_reference_tag(blob_id_type, std::uint64_t) { return 0; }
};
} // namespace limestone::api
