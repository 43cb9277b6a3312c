#include "seq.h"
#include <memory>
#include <jogasaki/udf/generic_record_impl.h>
using namespace plugin::udf;
namespace {
std::string fl(double d) { char b[64]; std::snprintf(b, sizeof b, "%a", d); return b; }
template <class T> std::string sh(T const& v) {
    if constexpr (std::is_same_v<T, bool>) return v ? "true" : "false";
    else if constexpr (std::is_floating_point_v<T>) return fl(v);
    else if constexpr (std::is_integral_v<T>) return std::to_string(v);
    else if constexpr (std::is_same_v<T, std::string>) return jb(v);
    else if constexpr (std::is_same_v<T, bytes_value>) return jb(v.value);
    else if constexpr (std::is_same_v<T, decimal_value>) return jb(v.unscaled_value) + "E" + std::to_string(v.exponent);
    else if constexpr (std::is_same_v<T, date_value>) return std::to_string(v.days);
    else if constexpr (std::is_same_v<T, local_time_value>) return std::to_string(v.nanos);
    else if constexpr (std::is_same_v<T, local_datetime_value>) return std::to_string(v.offset_seconds) + "." + std::to_string(v.nano_adjustment);
    else if constexpr (std::is_same_v<T, offset_datetime_value>) return std::to_string(v.offset_seconds) + "." + std::to_string(v.nano_adjustment) + "@" + std::to_string(v.time_zone_offset);
    else return std::to_string(v.storage_id) + "/" + std::to_string(v.object_id) + "/" + std::to_string(v.tag) + "/" + (v.provisioned ? "y" : "n");
}
char const* kind_name(runtime_type_kind k) {
    using K = runtime_type_kind;
    switch (k) {
        case K::null_value: return "null"; case K::boolean: return "bool"; case K::int4: return "int4"; case K::int8: return "int8";
        case K::uint4: return "uint4"; case K::uint8: return "uint8"; case K::float4: return "float"; case K::float8: return "double";
        case K::string: return "string"; case K::bytes: return "bytes"; case K::decimal: return "decimal"; case K::date: return "date";
        case K::local_time: return "local_time"; case K::local_datetime: return "local_datetime"; case K::offset_datetime: return "offset_datetime";
        case K::blob_reference: return "blob_reference"; case K::clob_reference: return "clob_reference";
    }
    return "?";
}
}
// program lines:  add R kind i j k b | null R kind | reset R | seterr R code hex | err R | assign R R2 | open C R | fetch C kind | has C | kind C | isnull C
int main() {
    std::string line;
    std::vector<std::unique_ptr<generic_record_impl>> rs;
    std::vector<std::unique_ptr<generic_record_cursor>> cs;
    while (std::getline(std::cin, line)) {
        std::stringstream ss(line);
        std::string op; ss >> op;
        if (op == "RESET") {
            int n, m; ss >> n >> m;
            cs.clear(); rs.clear(); cs.resize(m);
            for (int i = 0; i < n; ++i) rs.emplace_back(std::make_unique<generic_record_impl>());
            ev_init(std::to_string(n) + "," + std::to_string(m)); continue;
        }
        std::size_t i; ss >> i;
        std::string a = std::to_string(i);
        if (op == "add") {
            std::string k, bs; long long x; unsigned long long y, z; ss >> k >> x >> y >> z >> bs;
            std::string b = unhex(bs);
            auto& r = *rs[i - 1]; std::string s;
            auto put = [&](auto v, auto f) { s = sh(v); f(v); };
            if (k == "bool") put(x % 2 != 0, [&](auto v) { r.add_bool(v); });
            else if (k == "int4") put(static_cast<std::int32_t>(x), [&](auto v) { r.add_int4(v); });
            else if (k == "int8") put(static_cast<std::int64_t>(x), [&](auto v) { r.add_int8(v); });
            else if (k == "uint4") put(static_cast<std::uint32_t>(y), [&](auto v) { r.add_uint4(v); });
            else if (k == "uint8") put(static_cast<std::uint64_t>(y), [&](auto v) { r.add_uint8(v); });
            else if (k == "float") put(static_cast<float>(x) / 16, [&](auto v) { r.add_float(v); });
            else if (k == "double") put(static_cast<double>(x) / 3, [&](auto v) { r.add_double(v); });
            else if (k == "string") put(b, [&](auto v) { r.add_string(v); });
            else if (k == "bytes") put(bytes_value{b}, [&](auto v) { r.add_bytes(v); });
            else if (k == "decimal") put(decimal_value{b, static_cast<std::int32_t>(x)}, [&](auto v) { r.add_decimal(v); });
            else if (k == "date") put(date_value{static_cast<std::int32_t>(x)}, [&](auto v) { r.add_date(v); });
            else if (k == "local_time") put(local_time_value{x}, [&](auto v) { r.add_local_time(v); });
            else if (k == "local_datetime") put(local_datetime_value{x, static_cast<std::uint32_t>(y)}, [&](auto v) { r.add_local_datetime(v); });
            else if (k == "offset_datetime") put(offset_datetime_value{x, static_cast<std::uint32_t>(y), static_cast<std::int32_t>(z)}, [&](auto v) { r.add_offset_datetime(v); });
            else if (k == "blob_reference") put(blob_reference_value{y % 3, y, z, x % 2 != 0}, [&](auto v) { r.add_blob_reference(v); });
            else if (k == "clob_reference") put(clob_reference_value{y % 3, y, z, x % 2 != 0}, [&](auto v) { r.add_clob_reference(v); });
            else return 3;
            ev(op, a + "," + js(k) + "," + js(s), "\"\"");
        }
        else if (op == "null") {
            std::string k; ss >> k; auto& r = *rs[i - 1];
#define N(x) if (k == #x) r.add_##x##_null(); else
            N(bool) N(int4) N(int8) N(uint4) N(uint8) N(float) N(double) N(string) N(bytes) N(decimal) N(date) N(local_time) N(local_datetime) N(offset_datetime) N(blob_reference) N(clob_reference) return 3;
#undef N
            ev(op, a + "," + js(k), "\"\"");
        }
        else if (op == "reset") { rs[i - 1]->reset(); ev(op, a, "\"\""); }
        else if (op == "seterr") { int c; std::string m; ss >> c >> m; rs[i - 1]->set_error(error_info(static_cast<grpc::StatusCode>(c), unhex(m))); ev(op, a + "," + std::to_string(c) + "," + jb(unhex(m)), "\"\""); }
        else if (op == "err") {
            auto const& e = static_cast<generic_record const&>(*rs[i - 1]).error();
            auto& e2 = rs[i - 1]->error();
            if (e.has_value() != e2.has_value()) return 3;
            ev(op, a, e ? "[" + std::to_string(static_cast<int>(e->code())) + "," + jb(e->message()) + "]" : "[]");
        }
        else if (op == "assign") { std::size_t j; ss >> j; rs[i - 1]->assign_from(std::move(*rs[j - 1])); ev(op, a + "," + std::to_string(j), "\"\""); }
        else if (op == "open") { std::size_t j; ss >> j; cs[i - 1] = rs[j - 1]->cursor(); ev(op, a + "," + std::to_string(j), "\"\""); }
        else if (op == "fetch") {
            std::string k; ss >> k; auto& c = *cs[i - 1]; std::string s;
            auto get = [&](auto v) { s = v ? sh(*v) : "none"; };
#define F(x) if (k == #x) get(c.fetch_##x()); else
            F(bool) F(int4) F(int8) F(uint4) F(uint8) F(float) F(double) F(string) F(bytes) F(decimal) F(date) F(local_time) F(local_datetime) F(offset_datetime) F(blob_reference) F(clob_reference) return 3;
#undef F
            ev(op, a + "," + js(k), js(s));
        }
        else if (op == "has") ev(op, a, cs[i - 1]->has_next() ? "true" : "false");
        else if (op == "kind") { std::string s; try { s = kind_name(cs[i - 1]->current_kind()); } catch (std::out_of_range const&) { s = "out_of_range"; } ev(op, a, js(s)); }
        else if (op == "isnull") ev(op, a, cs[i - 1]->current_is_null() ? "true" : "false");
        else return 3;
    }
}
