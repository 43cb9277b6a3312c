#pragma once
#include <stdexcept>
#include <string>
namespace limestone::api {
class limestone_exception : public std::runtime_error { public: using std::runtime_error::runtime_error; };
class limestone_io_exception : public limestone_exception { public: using limestone_exception::limestone_exception; };
class limestone_blob_exception : public limestone_exception { public: using limestone_exception::limestone_exception; };
} // namespace limestone::api
