#pragma once
namespace yugawara::schema { class declaration { public: virtual ~declaration() = default; }; }
