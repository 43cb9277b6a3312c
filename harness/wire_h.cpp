#include "seq.h"
#include <cstring>
#include <memory>
#include <jogasaki/serializer/base128v.h>
#include <jogasaki/serializer/value_input.h>
#include <jogasaki/serializer/value_output.h>
#include <jogasaki/serializer/value_writer.h>
namespace s = jogasaki::serializer;
using bv = takatori::util::buffer_view;
struct exact {
    std::unique_ptr<char[]> p; std::size_t n;
    explicit exact(std::string const& s) : p(new char[s.size()]), n(s.size()) { std::memcpy(p.get(), s.data(), n); }
    explicit exact(std::size_t n) : p(new char[n]), n(n) { std::memset(p.get(), 0x5a, n); }
    [[nodiscard]] bool untouched(std::size_t from) const { for (auto i = from; i < n; ++i) if (p[i] != 0x5a) return false; return true; }
};
static std::uint64_t u(std::string const& v, std::size_t at = 0) { std::uint64_t r = 0; for (std::size_t i = 0; i < 8; ++i) r = (r << 8) | static_cast<unsigned char>(v.at(at + i)); return r; }
static std::int64_t i(std::string const& v, std::size_t at = 0) { return static_cast<std::int64_t>(u(v, at)); }
static std::string b8(std::uint64_t x) { std::string r; for (int k = 7; k >= 0; --k) r.push_back(static_cast<char>(x >> (8 * k))); return r; }
static std::string jn(std::size_t n, std::string_view v, bool ok) { if (! ok) return "[0,999]"; auto t = jb(v); return "[" + std::to_string(n) + (v.empty() ? "" : ",") + t.substr(1); }
struct sink { std::string out; bool write(char const* p, std::uint32_t n) { out.append(p, n); return true; } };
using namespace takatori::datetime;
static takatori::decimal::triple tri(std::string const& v) { return {static_cast<int>(v[0]) - 1, u(v, 1), u(v, 9), static_cast<std::int32_t>(i(v, 17))}; }
static time_of_day tod(std::uint64_t x) { return time_of_day{time_of_day::time_unit{x}}; }
static time_point tp(std::string const& v) { return time_point{time_point::offset_type{i(v)}, time_point::subsecond_unit{static_cast<std::int64_t>(u(v, 8))}}; }
static datetime_interval iv(std::string const& v) { return {{static_cast<std::int32_t>(i(v)), static_cast<std::int32_t>(i(v, 8)), static_cast<std::int32_t>(i(v, 16))}, time_interval{time_interval::time_unit{i(v, 24)}}}; }
static std::string pack(std::string const& bits) { std::string r((bits.size() + 7) / 8, '\xff'); for (std::size_t k = 0; k < r.size() * 8; ++k) if (k < bits.size() && bits[k] == 0) r[k / 8] = static_cast<char>(r[k / 8] & ~(1 << (k % 8))); return r; } // padding bits set
static bool put(std::string const& k, std::string const& v, bv::iterator& p, bv::const_iterator e) {
    if (k == "end") return s::write_end_of_contents(p, e);
    if (k == "null") return s::write_null(p, e);
    if (k == "int") return s::write_int(i(v), p, e);
    if (k == "f4") { std::uint32_t x = 0; for (char c : v) x = (x << 8) | static_cast<unsigned char>(c); float f; std::memcpy(&f, &x, 4); return s::write_float4(f, p, e); }
    if (k == "f8") { auto x = u(v); double f; std::memcpy(&f, &x, 8); return s::write_float8(f, p, e); }
    if (k == "dec") return s::write_decimal(tri(v), p, e);
    if (k == "char") { exact t{v}; return s::write_character({t.p.get(), t.n}, p, e); }
    if (k == "oct") { exact t{v}; return s::write_octet({t.p.get(), t.n}, p, e); }
    if (k == "bit") { exact t{pack(v)}; return s::write_bit({t.p.get(), t.n}, v.size(), p, e); }
    if (k == "date") return s::write_date(date{i(v)}, p, e);
    if (k == "tod") return s::write_time_of_day(tod(u(v)), p, e);
    if (k == "todz") return s::write_time_of_day_with_offset(tod(u(v)), static_cast<std::int32_t>(i(v, 8)), p, e);
    if (k == "tp") return s::write_time_point(tp(v), p, e);
    if (k == "tpz") return s::write_time_point_with_offset(tp(v), static_cast<std::int32_t>(i(v, 16)), p, e);
    if (k == "ival") return s::write_datetime_interval(iv(v), p, e);
    if (k == "row") return s::write_row_begin(u(v), p, e);
    if (k == "array") return s::write_array_begin(u(v), p, e);
    if (k == "clob") return s::write_clob(u(v), u(v, 8), u(v, 16), p, e);
    if (k == "blob") return s::write_blob(u(v), u(v, 8), u(v, 16), p, e);
    std::abort();
}
template <class W> static void stream(std::string const& k, std::string const& v, W& w) {
    if (k == "end") w.write_end_of_contents();
    else if (k == "null") w.write_null();
    else if (k == "int") w.write_int(i(v));
    else if (k == "f4") { std::uint32_t x = 0; for (char c : v) x = (x << 8) | static_cast<unsigned char>(c); float f; std::memcpy(&f, &x, 4); w.write_float4(f); }
    else if (k == "f8") { auto x = u(v); double f; std::memcpy(&f, &x, 8); w.write_float8(f); }
    else if (k == "dec") w.write_decimal(tri(v));
    else if (k == "char") { exact t{v}; w.write_character({t.p.get(), t.n}); }
    else if (k == "oct") { exact t{v}; w.write_octet({t.p.get(), t.n}); }
    else if (k == "bit") { exact t{pack(v)}; w.write_bit({t.p.get(), t.n}, v.size()); }
    else if (k == "date") w.write_date(date{i(v)});
    else if (k == "tod") w.write_time_of_day(tod(u(v)));
    else if (k == "todz") w.write_time_of_day_with_offset(tod(u(v)), static_cast<std::int32_t>(i(v, 8)));
    else if (k == "tp") w.write_time_point(tp(v));
    else if (k == "tpz") w.write_time_point_with_offset(tp(v), static_cast<std::int32_t>(i(v, 16)));
    else if (k == "ival") w.write_datetime_interval(iv(v));
    else if (k == "row") w.write_row_begin(u(v));
    else if (k == "array") w.write_array_begin(u(v));
    else if (k == "clob") w.write_clob(u(v), u(v, 8), u(v, 16));
    else if (k == "blob") w.write_blob(u(v), u(v, 8), u(v, 16));
    else std::abort();
}
static std::string get(std::string const& k, bv::const_iterator& p, bv::const_iterator e) {
    if (k == "end") { s::read_end_of_contents(p, e); return ""; }
    if (k == "null") { s::read_null(p, e); return ""; }
    if (k == "int") return b8(static_cast<std::uint64_t>(s::read_int(p, e)));
    if (k == "f4") { float f = s::read_float4(p, e); std::uint32_t x; std::memcpy(&x, &f, 4); return b8(x).substr(4); }
    if (k == "f8") { double f = s::read_float8(p, e); std::uint64_t x; std::memcpy(&x, &f, 8); return b8(x); }
    if (k == "dec") { auto t = s::read_decimal(p, e); return std::string(1, static_cast<char>(t.sign() + 1)) + b8(t.coefficient_high()) + b8(t.coefficient_low()) + b8(static_cast<std::uint64_t>(static_cast<std::int64_t>(t.exponent()))); }
    if (k == "char") return std::string{s::read_character(p, e)};
    if (k == "oct") return std::string{s::read_octet(p, e)};
    if (k == "bit") { auto b = s::read_bit(p, e); std::string r; for (std::size_t j = 0; j < b.size(); ++j) r.push_back(static_cast<char>(b.test(j))); return r; }
    if (k == "date") return b8(static_cast<std::uint64_t>(s::read_date(p, e).days_since_epoch()));
    if (k == "tod") return b8(s::read_time_of_day(p, e).time_since_epoch().count());
    auto pt = [](time_point t) { return b8(static_cast<std::uint64_t>(t.seconds_since_epoch().count())) + b8(static_cast<std::uint64_t>(t.subsecond().count())); };
    auto n = [](std::int32_t x) { return b8(static_cast<std::uint64_t>(static_cast<std::int64_t>(x))); };
    if (k == "todz") { auto [a, b] = s::read_time_of_day_with_offset(p, e); return b8(a.time_since_epoch().count()) + n(b); }
    if (k == "tp") return pt(s::read_time_point(p, e));
    if (k == "tpz") { auto [a, b] = s::read_time_point_with_offset(p, e); return pt(a) + n(b); }
    if (k == "ival") { auto t = s::read_datetime_interval(p, e); return n(t.date().year()) + n(t.date().month()) + n(t.date().day()) + b8(static_cast<std::uint64_t>(t.time().offset().count())); }
    if (k == "row") return b8(s::read_row_begin(p, e));
    if (k == "array") return b8(s::read_array_begin(p, e));
    if (k == "clob") { auto [a, b, c] = s::read_clob(p, e); return b8(a) + b8(b) + b8(c); }
    if (k == "blob") { auto [a, b, c] = s::read_blob(p, e); return b8(a) + b8(b) + b8(c); }
    std::abort();
}
static char const* name(s::entry_type t) {
    using e = s::entry_type;
    switch (t) {
        case e::end_of_contents: return "end"; case e::null: return "null"; case e::int_: return "int"; case e::float4: return "f4"; case e::float8: return "f8";
        case e::decimal: return "dec"; case e::character: return "char"; case e::octet: return "oct"; case e::bit: return "bit"; case e::date: return "date";
        case e::time_of_day: return "tod"; case e::time_of_day_with_offset: return "todz"; case e::time_point: return "tp"; case e::time_point_with_offset: return "tpz";
        case e::datetime_interval: return "ival"; case e::row: return "row"; case e::array: return "array"; case e::clob: return "clob"; case e::blob: return "blob";
    }
    return "?";
}
int main() {
    std::string line;
    auto sk = std::make_unique<sink>();
    auto vw = std::make_unique<s::value_writer<sink>>(*sk);
    while (std::getline(std::cin, line)) {
        std::stringstream ss(line);
        std::string op, k, h; long room = 0;
        ss >> op;
        if (op == "RESET") { sk = std::make_unique<sink>(); vw = std::make_unique<s::value_writer<sink>>(*sk); ev_init(); continue; }
        if (op == "w") { // w kind hex room
            ss >> k >> h >> room;
            auto v = unhex(h);
            std::string r;
            if (room < 0) { sk->out.clear(); stream(k, v, *vw); r = jb(sk->out); }
            else {
                exact b{static_cast<std::size_t>(room)};
                bv::iterator p = b.p.get();
                bool ok = put(k, v, p, b.p.get() + b.n);
                auto n = static_cast<std::size_t>(p - b.p.get());
                r = ok ? (b.untouched(n) ? jb({b.p.get(), n}) : "[998]") : (n == 0 && b.untouched(0) ? "[999]" : "[998]");
            }
            ev(op, js(k) + "," + jb(v) + "," + std::to_string(room), r);
        } else if (op == "r") {
            ss >> k >> h;
            auto v = unhex(h); exact b{v};
            bv::const_iterator p = b.p.get(); std::string r; bool ok = true;
            try { r = get(k, p, b.p.get() + b.n); } catch (std::runtime_error const&) { ok = false; }
            auto n = static_cast<std::size_t>(p - b.p.get());
            ev(op, js(k) + "," + jb(v), ! ok && n != 0 ? "[998]" : jn(n, r, ok));
        } else if (op == "peek") {
            ss >> h; auto v = unhex(h); exact b{v}; std::string r = "bad";
            try { r = name(s::peek_type(b.p.get(), b.p.get() + b.n)); } catch (s::value_input_exception const&) {}
            ev(op, jb(v), js(r));
        } else if (op == "uw" || op == "sw") {
            ss >> h >> room; auto v = unhex(h);
            exact b{static_cast<std::size_t>(room)};
            bv::iterator p = b.p.get();
            bool ok = op == "uw" ? s::base128v::write_unsigned(u(v), p, b.p.get() + b.n) : s::base128v::write_signed(i(v), p, b.p.get() + b.n);
            auto n = static_cast<std::size_t>(p - b.p.get());
            ev(op, jb(v) + "," + std::to_string(room), ok ? jb({b.p.get(), n}) : n == 0 ? "[999]" : "[998]");
        } else if (op == "usz" || op == "ssz") {
            ss >> h; auto v = unhex(h);
            ev(op, jb(v), std::to_string(op == "usz" ? s::base128v::size_unsigned(u(v)) : s::base128v::size_signed(i(v))));
        } else if (op == "ur" || op == "sr") {
            ss >> h; auto v = unhex(h); exact b{v}; std::string r; bool ok = true; std::size_t n;
            int mut; ss >> mut;
            if (mut) { bv::iterator p = b.p.get(); auto e = b.p.get() + b.n; if (op == "ur") { auto x = s::base128v::read_unsigned(p, e); ok = x.has_value(); if (ok) r = b8(*x); } else { auto x = s::base128v::read_signed(p, e); ok = x.has_value(); if (ok) r = b8(static_cast<std::uint64_t>(*x)); } n = static_cast<std::size_t>(p - b.p.get()); }
            else { bv::const_iterator p = b.p.get(); auto e = b.p.get() + b.n; if (op == "ur") { auto x = s::base128v::read_unsigned(p, e); ok = x.has_value(); if (ok) r = b8(*x); } else { auto x = s::base128v::read_signed(p, e); ok = x.has_value(); if (ok) r = b8(static_cast<std::uint64_t>(*x)); } n = static_cast<std::size_t>(p - b.p.get()); }
            ev(op, jb(v), ! ok && n != 0 ? "[998]" : jn(n, r, ok));
        } else { std::cerr << "unknown op " << op << "\n"; return 3; }
    }
    return 0;
}
