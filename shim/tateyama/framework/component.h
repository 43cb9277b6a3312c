#pragma once
#include <cstddef>
#include <memory>
#include <string_view>
#include <tateyama/api/server/request.h>
#include <tateyama/api/server/response.h>
namespace tateyama::framework {
class environment {};
class repository {};
class component {
public:
    using id_type = std::size_t;
    virtual ~component() = default;
    virtual bool setup(environment&) = 0;
    virtual bool start(environment&) = 0;
    virtual bool shutdown(environment&) = 0;
    [[nodiscard]] virtual std::string_view label() const noexcept = 0;
    [[nodiscard]] virtual id_type id() const noexcept = 0;
};
class resource : public component {};
class service : public component {
public:
    virtual bool operator()(std::shared_ptr<tateyama::api::server::request>, std::shared_ptr<tateyama::api::server::response>) = 0;
};
inline constexpr component::id_type service_id_sql = 5, resource_id_sql = 6;
} // namespace tateyama::framework
