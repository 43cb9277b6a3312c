#pragma once
namespace yugawara::variable { class provider { public: virtual ~provider() = default; }; class configurable_provider : public provider {}; }
