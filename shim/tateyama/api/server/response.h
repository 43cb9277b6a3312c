#pragma once
namespace tateyama::api::server {
class response { public: virtual ~response() = default; [[nodiscard]] virtual bool check_cancel() const { return false; } };
}
