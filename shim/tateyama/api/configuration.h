#pragma once
namespace tateyama::api::configuration { class whole; }
