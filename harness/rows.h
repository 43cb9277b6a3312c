// Records of a fixed small domain: column types by letters, values by indices (-1 is NULL).
#pragma once
#include <cmath>
#include <limits>
#include <memory>
#include <string>
#include <vector>
#include <jogasaki/accessor/binary.h>
#include <jogasaki/accessor/record_ref.h>
#include <jogasaki/accessor/text.h>
#include <jogasaki/meta/field_type.h>
#include <jogasaki/meta/field_type_kind.h>
#include <jogasaki/meta/field_type_traits.h>
#include <jogasaki/meta/record_meta.h>
namespace rows {
using namespace jogasaki;
using kind = meta::field_type_kind;
using row = std::vector<int>;
// i int8, j int4, f float8, g float4, n decimal, s character, o octet, b boolean, d date, y time_of_day, p time_point; capital letter: not nullable
inline char low(char c) { return static_cast<char>(std::tolower(c)); }
inline meta::field_type type_of(char c) {
    using F = meta::field_type;
    switch (low(c)) {
        case 'i': return F{meta::field_enum_tag<kind::int8>};
        case 'j': return F{meta::field_enum_tag<kind::int4>};
        case 'f': return F{meta::field_enum_tag<kind::float8>};
        case 'g': return F{meta::field_enum_tag<kind::float4>};
        case 'n': return F{std::make_shared<meta::decimal_field_option>()};
        case 's': return F{std::make_shared<meta::character_field_option>()};
        case 'o': return F{std::make_shared<meta::octet_field_option>()};
        case 'b': return F{meta::field_enum_tag<kind::boolean>};
        case 'd': return F{meta::field_enum_tag<kind::date>};
        case 'y': return F{std::make_shared<meta::time_of_day_field_option>()};
        default: return F{std::make_shared<meta::time_point_field_option>()};
    }
}
inline std::shared_ptr<meta::record_meta> meta_of(std::string const& cols) {
    std::vector<meta::field_type> fs{}; boost::dynamic_bitset<std::uint64_t> nul{cols.size()};
    for (std::size_t i = 0; i < cols.size(); ++i) { fs.emplace_back(type_of(cols[i])); nul.set(i, std::islower(cols[i]) != 0); }
    return std::make_shared<meta::record_meta>(std::move(fs), std::move(nul));
}
constexpr int domain = 8;
inline std::vector<std::string> const& strings() { // ascending by bytes
    static std::vector<std::string> const v{"", std::string("\0", 1), "A", "abcdefghijklmno", "abcdefghijklmnop", "abcdefghijklmnoq", std::string(300, 'b'), "\xe3\x81\x82"};
    return v;
}
inline double number(int v) { return v == 7 ? std::numeric_limits<double>::quiet_NaN() : v - 3; } // numbers -3..3, and NaN
inline takatori::decimal::triple dec(int v) { auto x = v - 3; return v % 2 == 0 ? takatori::decimal::triple{x < 0 ? -1 : x > 0 ? 1 : 0, 0, static_cast<std::uint64_t>(std::abs(x)) * 10, -1} : takatori::decimal::triple{x < 0 ? -1 : x > 0 ? 1 : 0, 0, static_cast<std::uint64_t>(std::abs(x)), 0}; }
struct buffer { // what an upstream step writes into; overwritten before the next record
    explicit buffer(meta::record_meta const& m) : meta_(m), mem_((m.record_size() + 64) / 8 + 1), txt_(m.field_count()) {}
    accessor::record_ref ref() { return {mem_.data(), meta_.record_size()}; }
    accessor::record_ref fill(std::string const& cols, row const& r, bool flip = false) {
        auto a = ref();
        for (std::size_t i = 0; i < cols.size(); ++i) {
            int v = r[i];
            if (std::islower(cols[i])) a.set_null(meta_.nullity_offset(i), v < 0);
            auto o = meta_.value_offset(i);
            if (v < 0) continue;
            switch (low(cols[i])) {
                case 'i': a.set_value<std::int64_t>(o, v - 3); break;
                case 'j': a.set_value<std::int32_t>(o, v - 3); break;
                case 'f': a.set_value<double>(o, v == 3 && flip ? -0.0 : number(v)); break;
                case 'g': a.set_value<float>(o, v == 3 && flip ? -0.0F : static_cast<float>(number(v))); break;
                case 'n': a.set_value<takatori::decimal::triple>(o, dec(v)); break;
                case 's': txt_[i] = strings()[v]; a.set_value<accessor::text>(o, accessor::text{std::string_view{txt_[i]}}); break;
                case 'o': txt_[i] = strings()[v]; a.set_value<accessor::binary>(o, accessor::binary{std::string_view{txt_[i]}}); break;
                case 'b': a.set_value<std::int8_t>(o, static_cast<std::int8_t>(v & 1)); break;
                case 'd': a.set_value<takatori::datetime::date>(o, takatori::datetime::date{v - 3}); break;
                case 'y': a.set_value<takatori::datetime::time_of_day>(o, takatori::datetime::time_of_day{std::chrono::nanoseconds{v * 1000000007LL}}); break;
                default: a.set_value<takatori::datetime::time_point>(o, takatori::datetime::time_point{std::chrono::seconds{v / 2 - 2}, std::chrono::nanoseconds{(v % 2) * 5}}); break;
            }
        }
        return a;
    }
    void spoil() { // everything written so far is gone
        for (auto& t : txt_) std::fill(t.begin(), t.end(), '#');
        std::memset(mem_.data(), 0x5a, meta_.record_size());
    }
    meta::record_meta const& meta_; std::vector<std::uint64_t> mem_; std::vector<std::string> txt_;
};
template <class T, class F> int find(T const& x, F f) { for (int v = 0; v < domain; ++v) if (f(v, x)) return v; return -2; }
inline int read(char c, accessor::record_ref a, std::size_t off, std::size_t noff) {
    if (std::islower(c) && a.is_null(noff)) return -1;
    switch (low(c)) {
        case 'i': { auto x = a.get_value<std::int64_t>(off); return x >= -3 && x <= 4 ? static_cast<int>(x) + 3 : -2; }
        case 'j': { auto x = a.get_value<std::int32_t>(off); return x >= -3 && x <= 4 ? static_cast<int>(x) + 3 : -2; }
        case 'f': { auto x = a.get_value<double>(off); return std::isnan(x) ? 7 : find(x, [](int v, double y) { return number(v) == y; }); }
        case 'g': { auto x = a.get_value<float>(off); return std::isnan(x) ? 7 : find(x, [](int v, float y) { return static_cast<float>(number(v)) == y; }); }
        case 'n': return find(a.get_value<takatori::decimal::triple>(off), [](int v, auto const& y) { return dec(v) == y; });
        case 's': return find(a.get_value<accessor::text>(off), [](int v, auto const& y) { return strings()[v] == std::string_view{y}; });
        case 'o': return find(a.get_value<accessor::binary>(off), [](int v, auto const& y) { return strings()[v] == std::string_view{y}; });
        case 'b': { auto x = a.get_value<std::int8_t>(off); return x == 0 || x == 1 ? x : -2; }
        case 'd': return find(a.get_value<takatori::datetime::date>(off), [](int v, auto const& y) { return y.days_since_epoch() == v - 3; });
        case 'y': return find(a.get_value<takatori::datetime::time_of_day>(off), [](int v, auto const& y) { return y.time_since_epoch().count() == v * 1000000007LL; });
        default: return find(a.get_value<takatori::datetime::time_point>(off), [](int v, auto const& y) { return y.seconds_since_epoch().count() == v / 2 - 2 && y.subsecond().count() == (v % 2) * 5; });
    }
}
inline row read(std::string const& cols, meta::record_meta const& m, accessor::record_ref a) {
    row r{};
    for (std::size_t i = 0; i < cols.size(); ++i) r.push_back(read(cols[i], a, m.value_offset(i), m.nullity_offset(i)));
    return r;
}
inline std::string str(row const& r) { std::string s{"["}; for (std::size_t i = 0; i < r.size(); ++i) s += (i ? "," : "") + std::to_string(r[i]); return s + "]"; }
inline row parse(std::string const& s) { row r{}; if (s == "-") return r; std::size_t p{}; while (p < s.size()) { auto q = s.find(',', p); if (q == std::string::npos) q = s.size(); r.push_back(std::stoi(s.substr(p, q - p))); p = q + 1; } return r; } // "1,-1,2"
inline hist::val lit(std::string const& s) { return hist::val{s == "-" ? "[]" : "[" + s + "]"}; }
struct runs { // run-length encoded list of records
    void add(row const& r) { if (! v_.empty() && v_.back().second == r) ++v_.back().first; else v_.emplace_back(1, r); }
    [[nodiscard]] std::string str() const { std::string s{"["}; for (std::size_t i = 0; i < v_.size(); ++i) s += (i ? ",[" : "[") + std::to_string(v_[i].first) + "," + rows::str(v_[i].second) + "]"; return s + "]"; }
    std::vector<std::pair<std::size_t, row>> v_{};
};
} // namespace rows
