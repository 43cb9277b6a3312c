// Encoding of keys and values (C23): commands from standard input, one event per line.
//   RESET
//   enc ROUTE WRITE CAP IGN FIELDS VALUES   ROUTE r|a (record or data::any), WRITE 0|1 (coding context), CAP bytes of buffer, IGN 0|1 (overflow ignored)
//   dec ROUTE FIELDS CUT POS VAL            decodes the bytes encoded last, CUT bytes removed from the end, byte POS (if >= 0) replaced by VAL
//   con FIELDS CUT POS VAL                  skips them
//   ea CAP WRITE FIELD VALUES               utils::encode_any into an aligned buffer of CAP bytes
//   dirty                                   an expression evaluated before on this thread failed with an invalid decimal operation
// FIELD: type, order a|d|v, ? (nullable) or !, then "p.s" (decimal), "v10" "v-" "f10" (varying or fixed, length)
// VALUE: N, decimal integer, hexadecimal bytes ("x..."), "[-]digits:exp", "sec:nanos"
#include <cstring>
#include <map>
#include "hist.h"
#include "seq.h"
#include "globals_stub.h"
#include <jogasaki/accessor/record_ref.h>
#include <jogasaki/data/aligned_buffer.h>
#include <jogasaki/data/any.h>
#include <jogasaki/kvs/coder.h>
#include <jogasaki/kvs/coding_context.h>
#include <jogasaki/kvs/readable_stream.h>
#include <jogasaki/kvs/writable_stream.h>
#include <jogasaki/memory/lifo_paged_memory_resource.h>
#include <jogasaki/meta/record_meta.h>
#include <jogasaki/utils/coder.h>
using namespace jogasaki;
namespace jogasaki::utils { [[noreturn]] void fail_with_exception_impl(std::string_view, std::string_view, std::string_view) { throw std::logic_error("fail_with_exception"); } }
namespace {
using kind = meta::field_type_kind;
using data::any;
struct field { char t{}, o{}; bool nul{}; int p{-1}, s{-1}; bool var{true}; meta::field_type type{}; };
std::vector<std::string> split(std::string const& s) { std::vector<std::string> r{}; std::stringstream t{s}; std::string x{}; while (std::getline(t, x, ',')) r.push_back(x); return r; }
field parse(std::string const& w) {
    field f{}; f.t = w[0]; f.o = w[1]; f.nul = w[2] == '?';
    auto rest = w.substr(3);
    using F = meta::field_type;
    if (f.t == 'n') { auto d = rest.find('.'); f.p = std::stoi(rest); f.s = std::stoi(rest.substr(d + 1)); }
    if (f.t == 's' || f.t == 'o') { f.var = rest[0] == 'v'; f.p = rest[1] == '-' ? -1 : std::stoi(rest.substr(1)); }
    std::optional<std::size_t> len{}; if (f.p >= 0) len = static_cast<std::size_t>(f.p);
    switch (f.t) {
        case 'b': f.type = F{meta::field_enum_tag<kind::boolean>}; break;
        case '1': f.type = F{meta::field_enum_tag<kind::int1>}; break;
        case '2': f.type = F{meta::field_enum_tag<kind::int2>}; break;
        case '4': f.type = F{meta::field_enum_tag<kind::int4>}; break;
        case '8': f.type = F{meta::field_enum_tag<kind::int8>}; break;
        case 'g': f.type = F{meta::field_enum_tag<kind::float4>}; break;
        case 'f': f.type = F{meta::field_enum_tag<kind::float8>}; break;
        case 'n': f.type = F{std::make_shared<meta::decimal_field_option>(static_cast<std::size_t>(f.p), static_cast<std::size_t>(f.s))}; break;
        case 's': f.type = F{std::make_shared<meta::character_field_option>(f.var, len)}; break;
        case 'o': f.type = F{std::make_shared<meta::octet_field_option>(f.var, len)}; break;
        case 'd': f.type = F{meta::field_enum_tag<kind::date>}; break;
        case 'y': f.type = F{std::make_shared<meta::time_of_day_field_option>()}; break;
        case 'p': f.type = F{std::make_shared<meta::time_point_field_option>()}; break;
        case 'B': f.type = F{meta::field_enum_tag<kind::blob>}; break;
        default: f.type = F{meta::field_enum_tag<kind::clob>}; break;
    }
    return f;
}
kvs::coding_spec spec(field const& f) { return f.o == 'a' ? kvs::spec_key_ascending : f.o == 'd' ? kvs::spec_key_descending : kvs::spec_value; }
std::string jf(std::vector<field> const& fs) {
    std::string s{"["};
    for (auto const& f : fs) s += std::string(s.size() > 1 ? "," : "") + "{\"t\":\"" + f.t + "\",\"o\":\"" + f.o + "\",\"n\":" + (f.nul ? "true" : "false") + ",\"p\":" + std::to_string(f.p) + ",\"s\":" + std::to_string(f.s) + ",\"var\":" + (f.var ? "true" : "false") + "}";
    return s + "]";
}
template <class T> T bits(std::string const& s) { std::string h = unhex(s); T v{}; std::string r(h.rbegin(), h.rend()); std::memcpy(&v, r.data(), sizeof v); return v; }
template <class T> std::string jbits(T v) { std::string r(sizeof v, 0); std::memcpy(r.data(), &v, sizeof v); std::string h(r.rbegin(), r.rend()); auto b = jb(h); return "[1," + b.substr(1); }
std::string mag(unsigned __int128 m) { std::string b{}; while (m != 0) { b.insert(b.begin(), static_cast<char>(m & 0xff)); m >>= 8; } auto s = jb(b); return s.substr(1, s.size() - 2); }
std::string ji(__int128 v, std::string const& extra = "") { bool n = v < 0; auto m = mag(static_cast<unsigned __int128>(n ? -v : v)); return std::string("[1,") + (n ? "1" : "0") + extra + (m.empty() ? "" : "," + m) + "]"; }
std::string js_(std::string_view s) { auto b = jb(s); return s.empty() ? "[1]" : "[1," + b.substr(1); }
std::string jd(takatori::decimal::triple t) {
    auto c = (static_cast<unsigned __int128>(t.coefficient_high()) << 64) | t.coefficient_low();
    std::string d{}; while (c != 0) { d = "," + std::to_string(static_cast<int>(c % 10)) + d; c /= 10; }
    return std::string("[1,") + (t.sign() < 0 ? "1" : "0") + "," + std::to_string(t.exponent()) + d + "]";
}
struct arena { // values of a row
    std::vector<std::unique_ptr<std::string>> s{};
    std::string const& keep(std::string v) { s.push_back(std::make_unique<std::string>(std::move(v))); return *s.back(); }
};
any value(field const& f, std::string const& w, arena& m) {
    if (w == "N") return {};
    auto num = [&] { return std::stoll(w); };
    switch (f.t) {
        case 'b': case '1': return any{std::in_place_type<std::int8_t>, static_cast<std::int8_t>(num())};
        case '2': return any{std::in_place_type<std::int16_t>, static_cast<std::int16_t>(num())};
        case '4': return any{std::in_place_type<std::int32_t>, static_cast<std::int32_t>(num())};
        case '8': return any{std::in_place_type<std::int64_t>, static_cast<std::int64_t>(num())};
        case 'g': return any{std::in_place_type<float>, bits<float>(w.substr(1))};
        case 'f': return any{std::in_place_type<double>, bits<double>(w.substr(1))};
        case 's': return any{std::in_place_type<accessor::text>, accessor::text{std::string_view{m.keep(unhex(w.substr(1)))}}};
        case 'o': return any{std::in_place_type<accessor::binary>, accessor::binary{std::string_view{m.keep(unhex(w.substr(1)))}}};
        case 'n': {
            bool neg = w[0] == '-'; auto c = w.find(':'); unsigned __int128 v{};
            for (std::size_t i = neg; i < c; ++i) v = v * 10 + static_cast<unsigned>(w[i] - '0');
            return any{std::in_place_type<takatori::decimal::triple>, takatori::decimal::triple{neg ? -1 : 1, static_cast<std::uint64_t>(v >> 64), static_cast<std::uint64_t>(v), std::stoi(w.substr(c + 1))}};
        }
        case 'd': return any{std::in_place_type<takatori::datetime::date>, takatori::datetime::date{num()}};
        case 'y': return any{std::in_place_type<takatori::datetime::time_of_day>, takatori::datetime::time_of_day{std::chrono::nanoseconds{num()}}};
        case 'p': return any{std::in_place_type<takatori::datetime::time_point>, takatori::datetime::time_point{std::chrono::seconds{num()}, std::chrono::nanoseconds{std::stoll(w.substr(w.find(':') + 1))}}};
        case 'B': return any{std::in_place_type<lob::blob_reference>, lob::blob_reference{std::stoull(w), lob::lob_data_provider::datastore}};
        default: return any{std::in_place_type<lob::clob_reference>, lob::clob_reference{std::stoull(w), lob::lob_data_provider::datastore}};
    }
}
std::string show(field const& f, any const& a) {
    if (a.empty()) return "[]";
    switch (f.t) {
        case 'b': case '1': return ji(a.to<std::int8_t>());
        case '2': return ji(a.to<std::int16_t>());
        case '4': return ji(a.to<std::int32_t>());
        case '8': return ji(a.to<std::int64_t>());
        case 'g': return jbits(a.to<float>());
        case 'f': return jbits(a.to<double>());
        case 's': { auto x = a.to<accessor::text>(); return js_(std::string_view{x}); }
        case 'o': { auto x = a.to<accessor::binary>(); return js_(std::string_view{x}); }
        case 'n': return jd(a.to<takatori::decimal::triple>());
        case 'd': return ji(a.to<takatori::datetime::date>().days_since_epoch());
        case 'y': return ji(a.to<takatori::datetime::time_of_day>().time_since_epoch().count());
        case 'p': { auto t = a.to<takatori::datetime::time_point>(); auto n = static_cast<std::uint32_t>(static_cast<std::int32_t>(t.subsecond().count())); std::string b{}; for (int i = 3; i >= 0; --i) b += "," + std::to_string((n >> (8 * i)) & 0xffU); return ji(t.seconds_since_epoch().count(), b); }
        case 'B': return ji(a.to<lob::blob_reference>().object_id());
        default: return ji(a.to<lob::clob_reference>().object_id());
    }
}
struct rec { // a record of the fields
    explicit rec(std::vector<field> const& fs) {
        std::vector<meta::field_type> ts{}; boost::dynamic_bitset<std::uint64_t> nul{fs.size()};
        for (std::size_t i = 0; i < fs.size(); ++i) { ts.push_back(fs[i].type); nul.set(i, fs[i].nul); }
        m = std::make_shared<meta::record_meta>(std::move(ts), std::move(nul));
        mem.resize(m->record_size() / 8 + 2, 0x5a5a5a5a5a5a5a5aULL);
    }
    accessor::record_ref ref() { return {mem.data(), m->record_size()}; }
    void set(std::size_t i, field const& f, any const& a) {
        auto r = ref(); auto o = m->value_offset(i);
        if (f.nul) r.set_null(m->nullity_offset(i), a.empty());
        if (a.empty()) return;
        switch (f.t) {
            case 'b': case '1': r.set_value<std::int8_t>(o, a.to<std::int8_t>()); break;
            case '2': r.set_value<std::int16_t>(o, a.to<std::int16_t>()); break;
            case '4': r.set_value<std::int32_t>(o, a.to<std::int32_t>()); break;
            case '8': r.set_value<std::int64_t>(o, a.to<std::int64_t>()); break;
            case 'g': r.set_value<float>(o, a.to<float>()); break;
            case 'f': r.set_value<double>(o, a.to<double>()); break;
            case 's': r.set_value<accessor::text>(o, a.to<accessor::text>()); break;
            case 'o': r.set_value<accessor::binary>(o, a.to<accessor::binary>()); break;
            case 'n': r.set_value<takatori::decimal::triple>(o, a.to<takatori::decimal::triple>()); break;
            case 'd': r.set_value<takatori::datetime::date>(o, a.to<takatori::datetime::date>()); break;
            case 'y': r.set_value<takatori::datetime::time_of_day>(o, a.to<takatori::datetime::time_of_day>()); break;
            case 'p': r.set_value<takatori::datetime::time_point>(o, a.to<takatori::datetime::time_point>()); break;
            case 'B': r.set_value<lob::blob_reference>(o, a.to<lob::blob_reference>()); break;
            default: r.set_value<lob::clob_reference>(o, a.to<lob::clob_reference>()); break;
        }
    }
    any get(std::size_t i, field const& f) {
        auto r = ref(); auto o = m->value_offset(i);
        if (f.nul && r.is_null(m->nullity_offset(i))) return {};
        auto of = [&](auto x) { using T = decltype(x); return any{std::in_place_type<T>, r.get_value<T>(o)}; };
        switch (f.t) {
            case 'b': case '1': return of(std::int8_t{});
            case '2': return of(std::int16_t{});
            case '4': return of(std::int32_t{});
            case '8': return of(std::int64_t{});
            case 'g': return of(float{});
            case 'f': return of(double{});
            case 's': return of(accessor::text{});
            case 'o': return of(accessor::binary{});
            case 'n': return of(takatori::decimal::triple{});
            case 'd': return of(takatori::datetime::date{});
            case 'y': return of(takatori::datetime::time_of_day{});
            case 'p': return of(takatori::datetime::time_point{});
            case 'B': return of(lob::blob_reference{});
            default: return of(lob::clob_reference{});
        }
    }
    std::shared_ptr<meta::record_meta> m{}; std::vector<std::uint64_t> mem{};
};
std::string answer(status s) {
    switch (s) {
        case status::ok: return "ok";
        case status::err_insufficient_field_storage: return "storage";
        case status::err_invalid_runtime_value: return "invalid";
        case status::err_expression_evaluation_failure: return "expr";
        case status::err_data_corruption: return "corrupt";
        default: return "other";
    }
}
std::string last{}; // bytes encoded last
memory::page_pool pages{};
std::string result(std::string const& r, std::size_t n, std::string_view b) { return "{\"r\":\"" + r + "\",\"n\":" + std::to_string(n) + ",\"b\":" + jb(b) + "}"; }
std::vector<field> fields(std::string const& s) { std::vector<field> r{}; for (auto const& w : split(s)) r.push_back(parse(w)); return r; }
std::string qs(std::string const& s) { return "\"" + s + "\""; }
std::string read(bool skip, char route, std::vector<field> const& fs, std::string const& bytes) {
    auto mem = std::make_unique<char[]>(bytes.size() + 1); std::memcpy(mem.get(), bytes.data(), bytes.size());
    kvs::readable_stream in{mem.get(), bytes.size()};
    kvs::coding_context ctx{};
    memory::lifo_paged_memory_resource res{&pages};
    rec rc{fs};
    std::string r{"ok"}, vals{}; std::size_t n{};
    for (std::size_t i = 0; i < fs.size(); ++i) {
        auto const& f = fs[i]; any a{}; status st{};
        try {
            if (skip) st = f.nul ? kvs::consume_stream_nullable(in, f.type, spec(f), ctx) : kvs::consume_stream(in, f.type, spec(f), ctx);
            else if (route == 'a') st = f.nul ? kvs::decode_nullable(in, f.type, spec(f), ctx, a, &res) : kvs::decode(in, f.type, spec(f), ctx, a, &res);
            else { st = f.nul ? kvs::decode_nullable(in, f.type, spec(f), ctx, rc.ref(), rc.m->value_offset(i), rc.m->nullity_offset(i), &res) : kvs::decode(in, f.type, spec(f), ctx, rc.ref(), rc.m->value_offset(i), &res); if (st == status::ok) a = rc.get(i, f); }
        } catch (std::exception const&) { r = "thrown"; break; }
        if (st != status::ok) { r = answer(st); break; }
        n = in.size();
        if (! skip) vals += (vals.empty() ? "" : ",") + show(f, a);
    }
    auto rest = r == "ok" ? std::string{in.rest()} : std::string{};
    return "{\"r\":" + qs(r) + ",\"n\":" + std::to_string(r == "ok" ? n : 0) + ",\"v\":[" + (r == "ok" ? vals : "") + "],\"b\":" + jb(rest) + "}";
}
void command(std::string const& line) {
    std::stringstream in{line}; std::vector<std::string> o{}; std::string x{};
    while (in >> x) o.push_back(x);
    if (o.empty()) return;
    auto const& c = o[0];
    auto num = [&](std::size_t i) { return std::stoll(o[i]); };
    auto values = [&](std::vector<field> const& fs, std::string const& s, arena& m, std::string& j) {
        std::vector<any> r{}; auto ws = split(s); j = "[";
        for (std::size_t i = 0; i < ws.size(); ++i) { auto const& f = fs[std::min(i, fs.size() - 1)]; r.push_back(value(f, ws[i], m)); j += (i ? "," : "") + show(f, r.back()); }
        j += "]"; return r;
    };
    if (c == "RESET") { last.clear(); ev_init(); return; }
    if (c == "dirty") { (void)(decimal::Decimal{0} / decimal::Decimal{0}); ev("dirty", "", "0"); return; }
    if (c == "enc") {
        auto fs = fields(o[5]); arena m{}; std::string j{};
        auto vs = values(fs, o[6], m, j);
        auto cap = static_cast<std::size_t>(num(3)); auto mem = std::make_unique<char[]>(cap + 8); std::memset(mem.get(), 0x77, cap + 8);
        kvs::writable_stream out{mem.get(), cap, num(4) != 0};
        kvs::coding_context ctx{}; ctx.coding_for_write(num(2) != 0);
        rec rc{fs}; std::string r{"ok"};
        for (std::size_t i = 0; i < fs.size(); ++i) rc.set(i, fs[i], vs[i]);
        try {
            for (std::size_t i = 0; i < fs.size() && r == "ok"; ++i) {
                auto const& f = fs[i];
                r = answer(o[1] == "a" ? (f.nul ? kvs::encode_nullable(vs[i], f.type, spec(f), ctx, out) : kvs::encode(vs[i], f.type, spec(f), ctx, out))
                        : f.nul ? kvs::encode_nullable(rc.ref(), rc.m->value_offset(i), rc.m->nullity_offset(i), f.type, spec(f), ctx, out) : kvs::encode(rc.ref(), rc.m->value_offset(i), f.type, spec(f), ctx, out));
            }
        } catch (std::logic_error const&) { r = "overflow"; }
        for (std::size_t i = 0; i < 8; ++i) if (mem[cap + i] != 0x77) r = "overrun";
        bool good = r == "ok" && out.size() <= cap;
        if (good) last.assign(mem.get(), out.size());
        ev("enc", qs(o[1]) + "," + o[2] + "," + o[3] + "," + o[4] + "," + jf(fs) + "," + j, result(r, r == "ok" ? out.size() : 0, good ? std::string_view{last} : std::string_view{}));
        return;
    }
    if (c == "ea") {
        auto fs = fields(o[3]); arena m{}; std::string j{};
        auto vs = values(fs, o[4], m, j);
        data::aligned_buffer b{static_cast<std::size_t>(num(1))}; std::string r{"ok"};
        kvs::coding_context ctx{}; ctx.coding_for_write(num(2) != 0);
        try {
            switch (vs.size()) {
                case 1: r = answer(utils::encode_any(b, fs[0].type, fs[0].nul, spec(fs[0]), ctx, {vs[0]})); break;
                case 2: r = answer(utils::encode_any(b, fs[0].type, fs[0].nul, spec(fs[0]), ctx, {vs[0], vs[1]})); break;
                default: r = answer(utils::encode_any(b, fs[0].type, fs[0].nul, spec(fs[0]), ctx, {vs[0], vs[1], vs[2]})); break;
            }
        } catch (std::logic_error const&) { r = "overflow"; }
        std::string_view got = r == "ok" ? std::string_view{b} : std::string_view{};
        ev("ea", o[1] + "," + o[2] + "," + jf(fs) + "," + j, result(r, got.size(), got));
        return;
    }
    // dec, con
    bool skip = c == "con"; std::size_t k = skip ? 1 : 2;
    auto fs = fields(o[k]); auto b = last;
    auto cut = static_cast<std::size_t>(num(k + 1)); b.resize(b.size() > cut ? b.size() - cut : 0);
    auto pos = num(k + 2); if (pos >= 0 && ! b.empty()) b[static_cast<std::size_t>(pos) % b.size()] = static_cast<char>(num(k + 3));
    ev(c, (skip ? qs("-") : qs(o[1])) + "," + jf(fs) + "," + jb(b), read(skip, skip ? 'a' : o[1][0], fs, b));
}
} // namespace
int main() {
    std::string line{};
    while (std::getline(std::cin, line)) command(line);
    return 0;
}
