#pragma once
#include <boost/filesystem/path.hpp>
namespace limestone::api {
class blob_file {
public:
    blob_file(boost::filesystem::path path, bool available) : path_(std::move(path)), available_(available) {}
    [[nodiscard]] boost::filesystem::path const& path() const noexcept { return path_; }
    [[nodiscard]] explicit operator bool() const noexcept { return available_; }
private:
    boost::filesystem::path path_{};
    bool available_{};
};
} // namespace limestone::api
