// Scalar expressions, built-in functions and CAST evaluated by the real evaluator (C24, C25).
// Commands: "cfg <zone offset in minutes> <start time of the transaction, ns | N>" and "eval <expression>", the expression in prefix form.
// Leaves: i:<int4> l:<int8> n:<coefficient>:<exponent> f:<hex of float4> d:<hex of float8> b:<0|1> t:<hex> o:<hex> c:<length>:<hex> (CHAR) x:<length>:<hex> (BINARY) D:<days> T:<ns> P:<s>:<ns> N<type>;
//   "$" in front: read from a host variable, "@": from a variable of the block, "^": from a variable of an enclosing block.
// Nodes: add sub mul div rem cat and or | neg pos not len isnull istrue isfalse isunk | eq ne lt le gt ge nd ds | like (3) | case:<n>:<0|1 default> | coal:<n> | fn:<id>:<n> | cast:<type>:<policy>
// One event per inner node: its operands' answers and its own, each found by evaluating that subexpression on its own.
#include "seq.h"
#include "globals_stub.h"
#include <cmath>
#include <cstring>
#include <decimal.hh>
#include <jogasaki/datastore/assign_lob_id.h>
#include <jogasaki/datastore/find_path_by_lob_id.h>
#include <jogasaki/datastore/register_lob.h>
#include <jogasaki/error_code.h>
#include <jogasaki/error/error_info.h>
#include <jogasaki/executor/conv/assignment.h>
#include <jogasaki/executor/conv/parameter_apply.h>
#include <jogasaki/executor/expr/evaluator.h>
#include <jogasaki/executor/function/builtin_scalar_functions.h>
#include <jogasaki/executor/function/scalar_function_repository.h>
#include <jogasaki/executor/process/impl/variable_table.h>
#include <jogasaki/request_context.h>
#include <jogasaki/storage/storage_manager.h>
#include <jogasaki/transaction_context.h>
#include <jogasaki/utils/field_types.h>
#include <takatori/type/character.h>
#include <takatori/type/date.h>
#include <takatori/type/decimal.h>
#include <takatori/type/float.h>
#include <takatori/type/int.h>
#include <takatori/type/octet.h>
#include <takatori/type/primitive.h>
#include <takatori/type/time_of_day.h>
#include <takatori/type/time_point.h>
#include <yugawara/function/configurable_provider.h>
using namespace jogasaki;
namespace t = takatori::type; namespace v = takatori::value; namespace s = takatori::scalar;
namespace impl = executor::process::impl;
using any = data::any; using triple = takatori::decimal::triple;
namespace jogasaki::utils { [[noreturn]] void fail_with_exception_impl(std::string_view, std::string_view, std::string_view) { throw std::logic_error("fail_with_exception"); } }
namespace jogasaki::global { std::shared_ptr<storage::storage_manager> const& storage_manager(std::shared_ptr<storage::storage_manager>) { static auto s = std::make_shared<storage::storage_manager>(); return s; } }
namespace jogasaki::global { executor::function::scalar_function_repository& scalar_function_repository() { static executor::function::scalar_function_repository r{}; return r; } }
namespace { std::shared_ptr<error::error_info> reported{}; }
namespace jogasaki { bool request_context::error_info(std::shared_ptr<error::error_info> const& x) noexcept { reported = x; return true; }
std::shared_ptr<transaction_context> const& request_context::transaction() const { static std::shared_ptr<transaction_context> none{}; return none; }
bool request_context::status_code(status, std::string_view) noexcept { return true; } }
namespace {
using T = std::shared_ptr<t::data const>;
template <class X, class... A> T mk(A&&... a) { return std::make_shared<X>(std::forward<A>(a)...); }
T type_named(std::string const& w) { // i l f d b n<p>.<s> tv<len> tf<len> ov<len> of<len> D T P Pz; "-": not given
    auto len = [](std::string const& x) { std::optional<std::size_t> r{}; if (! x.empty() && x != "-") r = std::stoul(x); return r; };
    switch (w[0]) {
        case 'i': return mk<t::int4>(); case 'l': return mk<t::int8>(); case 'f': return mk<t::float4>(); case 'd': return mk<t::float8>(); case 'b': return mk<t::boolean>();
        case 'n': { auto r = w.substr(1); auto k = r.find('.'); if (k == std::string::npos) return mk<t::decimal>(std::nullopt, std::nullopt); return mk<t::decimal>(len(r.substr(0, k)), len(r.substr(k + 1))); }
        case 't': if (w.size() > 1 && w[1] == 'f') return mk<t::character>(len(w.substr(2))); return mk<t::character>(t::varying, len(w.size() > 2 ? w.substr(2) : ""));
        case 'o': if (w.size() > 1 && w[1] == 'f') return mk<t::octet>(len(w.substr(2))); return mk<t::octet>(t::varying, len(w.size() > 2 ? w.substr(2) : ""));
        case 'D': return mk<t::date>(); case 'T': return mk<t::time_of_day>();
        case 'P': return w.size() > 1 ? mk<t::time_point>(t::with_time_zone) : mk<t::time_point>();
    }
    std::abort();
}
bool num(T const& x) { auto k = x->kind(); using K = t::type_kind; return k == K::int4 || k == K::int8 || k == K::decimal || k == K::float4 || k == K::float8; }
T arith(T const& a, T const& b) { // type of the result of an arithmetic operation (utils of the evaluator's promotion)
    using K = t::type_kind; auto x = a->kind(), y = b->kind();
    auto fl = [](K k) { return k == K::float4 || k == K::float8; };
    if (x == y && x == K::decimal && ! (*a == *b)) return type_named("n");
    if (x == y) return a;
    if (fl(x) || fl(y)) return mk<t::float8>();
    if (x == K::decimal || y == K::decimal) return type_named("n");
    return mk<t::int8>();
}
T unify(T const& a, T const& b) { if (*a == *b) return a; if (num(a) && num(b)) return arith(a, b); if (a->kind() == t::type_kind::character) return type_named("tv"); if (a->kind() == t::type_kind::octet) return type_named("ov"); return a; }
int code(t::data const& x) { using K = t::type_kind; switch (x.kind()) { case K::boolean: return 1; case K::int4: return 4; case K::int8: return 8; case K::decimal: return 10; case K::float4: return 14; case K::float8: return 18; case K::character: return 20; case K::octet: return 21; case K::date: return 31; case K::time_of_day: return 32; default: return 33; } }

// --- values as JSON: limbs of base 1000, least significant first
std::string limbs(std::string d, long e) { // digits and decimal exponent
    auto k = d.find_first_not_of('0'); d = k == std::string::npos ? "" : d.substr(k);
    while (! d.empty() && d.back() == '0') { d.pop_back(); ++e; }
    if (d.empty()) return "0";
    while (e % 3 != 0) { d += '0'; --e; }
    while (d.size() % 3 != 0) d = "0" + d;
    std::string r = std::to_string(e / 3);
    for (auto i = d.size(); i > 0; i -= 3) r += "," + std::to_string(std::stoi(d.substr(i - 3, 3)));
    return r;
}
std::string ji(int k, __int128 x, int tag = 2) {
    bool n = x < 0; auto m = static_cast<unsigned __int128>(n ? -x : x); std::string d{};
    while (m != 0) { d.insert(d.begin(), static_cast<char>('0' + static_cast<int>(m % 10))); m /= 10; }
    return "[" + std::to_string(tag) + "," + std::to_string(k) + "," + (n ? "1" : "0") + "," + limbs(d, 0) + "]";
}
std::string jd(triple x) {
    auto m = (static_cast<unsigned __int128>(x.coefficient_high()) << 64) | x.coefficient_low(); std::string d{};
    while (m != 0) { d.insert(d.begin(), static_cast<char>('0' + static_cast<int>(m % 10))); m /= 10; }
    return std::string("[2,10,") + (x.sign() < 0 ? "1" : "0") + "," + limbs(d, x.exponent()) + "]";
}
std::string jf(int k, double x) {
    auto h = "[3," + std::to_string(k) + ",";
    if (std::isnan(x)) return h + "2,0,0]";
    if (std::isinf(x)) return h + "1," + (x < 0 ? "1" : "0") + ",0]";
    char b[1300]; std::snprintf(b, sizeof b, "%.1100e", std::fabs(x));
    std::string q{b}; auto e = q.find('e'); std::string d = q.substr(0, 1) + q.substr(2, e - 2);
    return h + "0," + (std::signbit(x) ? "1" : "0") + "," + limbs(d, std::stol(q.substr(e + 1)) - static_cast<long>(d.size()) + 1) + "]";
}
std::string jv(any const& a) {
    if (a.empty()) return "[]";
    if (a.error()) return "[0," + std::to_string(static_cast<int>(a.to<executor::expr::error>().kind())) + "]";
    auto bytes = [](int k, std::string_view x) { auto b = jb(x); return "[" + std::to_string(k) + (x.empty() ? "" : ",") + b.substr(1); };
    switch (a.type_index()) {
        case any::index<bool>: return a.to<bool>() ? "[1,1]" : "[1,0]";
        case any::index<std::int32_t>: return ji(4, a.to<std::int32_t>());
        case any::index<std::int64_t>: return ji(8, a.to<std::int64_t>());
        case any::index<float>: return jf(14, static_cast<double>(a.to<float>()));
        case any::index<double>: return jf(18, a.to<double>());
        case any::index<triple>: return jd(a.to<triple>());
        case any::index<accessor::text>: { auto x = a.to<accessor::text>(); return bytes(4, static_cast<std::string_view>(x)); }
        case any::index<accessor::binary>: { auto x = a.to<accessor::binary>(); return bytes(5, static_cast<std::string_view>(x)); }
        case any::index<takatori::datetime::date>: return ji(31, a.to<takatori::datetime::date>().days_since_epoch(), 6);
        case any::index<takatori::datetime::time_of_day>: return ji(32, static_cast<__int128>(a.to<takatori::datetime::time_of_day>().time_since_epoch().count()), 6);
        case any::index<takatori::datetime::time_point>: { auto x = a.to<takatori::datetime::time_point>(); return ji(33, static_cast<__int128>(x.seconds_since_epoch().count()) * 1000000000 + x.subsecond().count(), 6); }
    }
    return "[9," + std::to_string(a.type_index()) + "]";
}

// --- the program
struct node { std::shared_ptr<s::expression const> e{}; T ty{}; std::string op{}; std::string extra{}; std::vector<node> c{}; };
yugawara::function::configurable_provider* functions{};
struct leaf { T ty; std::shared_ptr<v::data const> val; };
template <class X> X bits(std::string const& h) { auto b = unhex(h); std::string r(b.rbegin(), b.rend()); X x{}; std::memcpy(&x, r.data(), sizeof x); return x; }
leaf literal(std::string const& w) {
    if (w[0] == 'N') return {type_named(w.substr(1)), std::make_shared<v::unknown>()};
    auto r = w.substr(2); auto k = r.find(':');
    switch (w[0]) {
        case 'i': return {type_named("i"), std::make_shared<v::int4>(std::stoi(r))};
        case 'l': return {type_named("l"), std::make_shared<v::int8>(std::stoll(r))};
        case 'b': return {type_named("b"), std::make_shared<v::boolean>(r == "1")};
        case 'f': return {type_named("f"), std::make_shared<v::float4>(bits<float>(r))};
        case 'd': return {type_named("d"), std::make_shared<v::float8>(bits<double>(r))};
        case 'n': { bool n = r[0] == '-'; unsigned __int128 m{}; for (std::size_t i = n; i < k; ++i) m = m * 10 + static_cast<unsigned>(r[i] - '0'); return {type_named("n"), std::make_shared<v::decimal>(triple{m == 0 ? 0 : n ? -1 : 1, static_cast<std::uint64_t>(m >> 64), static_cast<std::uint64_t>(m), std::stoi(r.substr(k + 1))})}; }
        case 't': return {type_named("tv"), std::make_shared<v::character>(unhex(r))};
        case 'o': return {type_named("ov"), std::make_shared<v::octet>(unhex(r))};
        case 'c': return {type_named("tf" + r.substr(0, k)), std::make_shared<v::character>(unhex(r.substr(k + 1)))};
        case 'x': return {type_named("of" + r.substr(0, k)), std::make_shared<v::octet>(unhex(r.substr(k + 1)))};
        case 'D': return {type_named("D"), std::make_shared<v::date>(takatori::datetime::date{std::stoll(r)})};
        case 'T': return {type_named("T"), std::make_shared<v::time_of_day>(takatori::datetime::time_of_day{std::chrono::nanoseconds{std::stoll(r)}})};
        case 'P': return {type_named("P"), std::make_shared<v::time_point>(takatori::datetime::time_point{std::chrono::seconds{std::stoll(r)}, std::chrono::nanoseconds{std::stoll(r.substr(k + 1))}})};
    }
    std::abort();
}
struct world {
    yugawara::compiled_info info{};
    std::vector<std::pair<takatori::descriptor::variable, leaf>> vars[3]{}; // host, block, enclosing block
    int next{1};
};
s::cast_loss_policy policy(std::string const& w) { return w == "ignore" ? s::cast_loss_policy::ignore : w == "floor" ? s::cast_loss_policy::floor : w == "ceil" ? s::cast_loss_policy::ceil : w == "unknown" ? s::cast_loss_policy::unknown : w == "warn" ? s::cast_loss_policy::warn : s::cast_loss_policy::error; }
std::string params(t::data const& ty, t::data const& src, int pol) { // of a conversion, as in the events
    int ps[2]{-1, -1}; int var = 0;
    if (auto* x = dynamic_cast<t::decimal const*>(&ty)) { if (x->precision()) ps[0] = static_cast<int>(*x->precision()); if (x->scale()) ps[1] = static_cast<int>(*x->scale()); }
    auto lenof = [](t::data const* y, int& l, int& q) { if (auto* x = dynamic_cast<t::character const*>(y)) { if (x->length()) l = static_cast<int>(*x->length()); q = x->varying(); } if (auto* x = dynamic_cast<t::octet const*>(y)) { if (x->length()) l = static_cast<int>(*x->length()); q = x->varying(); } };
    lenof(&ty, ps[0], var);
    int sl = -1, sv = 1; lenof(&src, sl, sv);
    auto* z = dynamic_cast<t::time_point const*>(&ty);
    return "[" + std::to_string(code(ty)) + "," + std::to_string(ps[0]) + "," + std::to_string(ps[1]) + "," + std::to_string(var) + "," + std::to_string(pol) + "," + std::to_string(z && z->with_time_zone()) + "," + std::to_string(code(src)) + "," + std::to_string(sv) + "]";
}
node parse(std::istringstream& in, world& g) {
    std::string w{}; in >> w; node n{};
    if (w.empty()) std::abort();
    auto done = [&](std::shared_ptr<s::expression const> e, T ty) { n.e = std::move(e); n.ty = std::move(ty); g.info.verif_set(*n.e, n.ty); return std::move(n); };
    auto kids = [&](std::size_t k) { for (std::size_t i = 0; i < k; ++i) n.c.push_back(parse(in, g)); };
    auto p = std::string("$@^").find(w[0]);
    if (p != std::string::npos) {
        auto l = literal(w.substr(1)); takatori::descriptor::variable var{g.next++};
        g.vars[p].emplace_back(var, l); g.info.verif_set(var, l.ty);
        return done(std::make_shared<s::variable_reference>(var), l.ty);
    }
    if (w[0] == 'N' || (w.size() > 1 && w[1] == ':')) { auto l = literal(w); return done(std::make_shared<s::immediate>(l.val, l.ty), l.ty); }
    std::vector<std::string> f{}; { std::istringstream x{w}; std::string y{}; while (std::getline(x, y, ':')) f.push_back(y); }
    n.op = f[0];
    auto boolean = type_named("b");
    static std::map<std::string, s::binary_operator> const bin{{"add", s::binary_operator::add}, {"sub", s::binary_operator::subtract}, {"mul", s::binary_operator::multiply}, {"div", s::binary_operator::divide}, {"rem", s::binary_operator::remainder}, {"cat", s::binary_operator::concat}, {"and", s::binary_operator::conditional_and}, {"or", s::binary_operator::conditional_or}};
    static std::map<std::string, s::unary_operator> const un{{"neg", s::unary_operator::sign_inversion}, {"pos", s::unary_operator::plus}, {"not", s::unary_operator::conditional_not}, {"len", s::unary_operator::length}, {"isnull", s::unary_operator::is_null}, {"istrue", s::unary_operator::is_true}, {"isfalse", s::unary_operator::is_false}, {"isunk", s::unary_operator::is_unknown}};
    static std::map<std::string, s::comparison_operator> const cmp{{"eq", s::comparison_operator::equal}, {"ne", s::comparison_operator::not_equal}, {"lt", s::comparison_operator::less}, {"le", s::comparison_operator::less_equal}, {"gt", s::comparison_operator::greater}, {"ge", s::comparison_operator::greater_equal}, {"nd", s::comparison_operator::is_not_distinct_from}, {"ds", s::comparison_operator::is_distinct_from}};
    if (auto it = bin.find(f[0]); it != bin.end()) {
        kids(2);
        auto ty = f[0] == "cat" ? type_named("tv") : f[0] == "and" || f[0] == "or" ? boolean : arith(n.c[0].ty, n.c[1].ty);
        auto e = std::make_shared<s::binary>(it->second, n.c[0].e, n.c[1].e);
        return done(e, ty);
    }
    if (auto it = un.find(f[0]); it != un.end()) {
        kids(1); auto ty = f[0] == "neg" || f[0] == "pos" ? n.c[0].ty : f[0] == "len" ? type_named("i") : boolean;
        auto e = std::make_shared<s::unary>(it->second, n.c[0].e); return done(e, ty);
    }
    if (auto it = cmp.find(f[0]); it != cmp.end()) { kids(2); auto e = std::make_shared<s::compare>(it->second, n.c[0].e, n.c[1].e); return done(e, boolean); }
    if (f[0] == "like") { kids(3); auto e = std::make_shared<s::match>(s::match_operator::like, n.c[0].e, n.c[1].e, n.c[2].e); return done(e, boolean); }
    if (f[0] == "case") {
        std::size_t k = std::stoul(f[1]); bool d = f[2] == "1"; kids(2 * k + (d ? 1 : 0));
        T ty{}; for (std::size_t i = 0; i < n.c.size(); ++i) if (i % 2 == 1 || i == 2 * k) ty = ty ? unify(ty, n.c[i].ty) : n.c[i].ty;
        std::vector<s::conditional::alternative> a{}; for (std::size_t i = 0; i < k; ++i) a.emplace_back(n.c[2 * i].e, n.c[2 * i + 1].e);
        n.extra = std::to_string(code(*ty));
        auto e = std::make_shared<s::conditional>(a, d ? n.c[2 * k].e : s::eptr{}); return done(e, ty);
    }
    if (f[0] == "coal") {
        kids(std::stoul(f[1])); T ty{}; std::vector<s::eptr> a{}; for (auto& c : n.c) { ty = ty ? unify(ty, c.ty) : c.ty; a.push_back(c.e); }
        n.extra = std::to_string(code(*ty));
        auto e = std::make_shared<s::coalesce>(a); return done(e, ty);
    }
    if (f[0] == "fn") {
        std::shared_ptr<yugawara::function::declaration> d{}; for (auto& x : functions->decls_) if (x->definition_id() == std::stoul(f[1])) d = x;
        if (! d) std::abort();
        kids(std::stoul(f[2])); std::vector<s::eptr> a{}; for (auto& c : n.c) a.push_back(c.e);
        n.op = d->name();
        auto e = std::make_shared<s::function_call>(takatori::descriptor::function{std::shared_ptr<void const>(d)}, a); return done(e, std::shared_ptr<t::data const>(d->return_type().clone()));
    }
    if (f[0] == "cast") {
        auto ty = type_named(f[1]); kids(1);
        n.extra = params(*ty, *n.c[0].ty, static_cast<int>(policy(f[2])));
        auto e = std::make_shared<s::cast>(ty, policy(f[2]), n.c[0].e); return done(e, ty);
    }
    std::cerr << "unknown token " << w << "\n"; std::abort();
}
void put(accessor::record_ref r, impl::value_info const& i, meta::field_type const& ft, leaf const& l, memory::paged_memory_resource& m) {
    auto o = i.value_offset(); bool nul = l.val->kind() == v::value_kind::unknown;
    r.set_null(i.nullity_offset(), nul); if (nul) return;
    using k = meta::field_type_kind;
    switch (ft.kind()) {
        case k::boolean: r.set_value<std::int8_t>(o, static_cast<v::boolean const&>(*l.val).get() ? 1 : 0); break;
        case k::int4: r.set_value<std::int32_t>(o, static_cast<v::int4 const&>(*l.val).get()); break;
        case k::int8: r.set_value<std::int64_t>(o, static_cast<v::int8 const&>(*l.val).get()); break;
        case k::float4: r.set_value<float>(o, static_cast<v::float4 const&>(*l.val).get()); break;
        case k::float8: r.set_value<double>(o, static_cast<v::float8 const&>(*l.val).get()); break;
        case k::decimal: r.set_value<triple>(o, static_cast<v::decimal const&>(*l.val).get()); break;
        case k::character: r.set_value<accessor::text>(o, accessor::text{&m, static_cast<v::character const&>(*l.val).get()}); break;
        case k::octet: r.set_value<accessor::binary>(o, accessor::binary{&m, static_cast<v::octet const&>(*l.val).get()}); break;
        case k::date: r.set_value<takatori::datetime::date>(o, static_cast<v::date const&>(*l.val).get()); break;
        case k::time_of_day: r.set_value<takatori::datetime::time_of_day>(o, static_cast<v::time_of_day const&>(*l.val).get()); break;
        case k::time_point: r.set_value<takatori::datetime::time_point>(o, static_cast<v::time_point const&>(*l.val).get()); break;
        default: std::abort();
    }
}
struct evaluation {
    world& g; transaction_context& tx; memory::lifo_paged_memory_resource& mem; impl::variables_view view; impl::variable_table* host;
    std::string run(node const& n) {
        std::string a{}; for (auto const& c : n.c) a += (a.empty() ? "" : ",") + run(c);
        executor::expr::evaluator_context ctx{&mem, &tx};
        executor::expr::evaluator e{*n.e, g.info, host};
        auto r = jv(e(ctx, view, &mem));
        if (! n.op.empty()) ev(n.op, n.extra.empty() ? a : n.extra + (a.empty() ? "" : "," + a), r);
        else if (n.e->kind() == s::expression_kind::variable_reference) ev("var", jv(expected(n)), r);
        return r;
    }
    any expected(node const& n) { auto const& var = static_cast<s::variable_reference const&>(*n.e).variable(); for (auto& x : g.vars) for (auto& [k, l] : x) if (k == var) { s::immediate im{l.val, l.ty}; yugawara::compiled_info ci{}; ci.verif_set(im, l.ty); executor::expr::evaluator_context c{&mem, &tx}; return executor::expr::evaluator{im, ci}(c, {}, &mem); } std::abort(); }
};
} // namespace
int main() {
    auto fp = std::make_unique<yugawara::function::configurable_provider>(); functions = fp.get();
    executor::function::add_builtin_scalar_functions(*fp, global::scalar_function_repository());
    auto tx = std::make_unique<transaction_context>();
    memory::lifo_paged_memory_resource mem{&global::page_pool()};
    std::string line{};
    while (std::getline(std::cin, line)) {
        std::istringstream in{line}; std::string c{}; in >> c;
        if (c == "RESET") { ev_init(); tx = std::make_unique<transaction_context>(); global::config_pool()->zone_offset(0); continue; }
        if (c == "cfg") {
            std::int32_t z{}; std::string st{}; in >> z >> st; global::config_pool()->zone_offset(z); tx = std::make_unique<transaction_context>();
            if (st != "N") tx->start_time(std::chrono::system_clock::time_point{std::chrono::duration_cast<std::chrono::system_clock::duration>(std::chrono::nanoseconds{std::stoll(st)})});
            ev("cfg", std::to_string(z) + "," + (st == "N" ? "[]" : ji(33, std::stoll(st), 6)), "[]"); continue;
        }
        if (c == "asgn" || c == "papp") { // conversion of a value for a column or a parameter: asgn <literal> <type>
            std::string l{}, w{}; in >> l >> w; auto x = literal(l); auto ty = type_named(w);
            world g{}; s::immediate im{x.val, x.ty}; g.info.verif_set(im, x.ty); executor::expr::evaluator_context ec{&mem, tx.get()};
            auto cp = mem.get_checkpoint();
            auto src = executor::expr::evaluator{im, g.info}(ec, {}, &mem); any out{};
            alignas(request_context) static char rc[sizeof(request_context)]{}; reported.reset();
            auto st = c == "asgn" ? executor::conv::conduct_assignment_conversion(*x.ty, *ty, src, out, reinterpret_cast<request_context&>(rc), &mem) : executor::conv::conduct_parameter_application_conversion(*x.ty, *ty, src, out, &mem);
            std::string r = jv(out);
            if (st != status::ok) {
                auto k = reported ? reported->code() : error_code::none; bool same = reported && reported->status() == st;
                r = ! same ? "[0,98]" : k == error_code::unsupported_runtime_feature_exception && st == status::err_unsupported ? "[0,9]" : k == error_code::value_too_long_exception && st == status::err_expression_evaluation_failure ? "[0,4]" : k == error_code::value_evaluation_exception && st == status::err_expression_evaluation_failure ? "[0,97]" : "[0,98]";
            }
            ev(c, params(*ty, *x.ty, c == "asgn" ? 6 : 0) + "," + jv(src), r); mem.deallocate_after(cp); continue;
        }
        world g{}; auto root = parse(in, g);
        impl::variable_table_info infos[3]{}; meta::record_meta const* metas[3]{};
        for (int k : {0, 2, 1}) {
            std::vector<meta::field_type> fs{}; std::unordered_map<takatori::descriptor::variable, std::size_t> ix{};
            for (auto& [var, l] : g.vars[k]) { ix[var] = fs.size(); fs.push_back(utils::type_for(*l.ty)); }
            boost::dynamic_bitset<std::uint64_t> nl{}; nl.resize(fs.size(), true);
            auto m = std::make_shared<meta::record_meta>(std::move(fs), std::move(nl)); metas[k] = m.get();
            if (k == 1) { // a block whose parent is the enclosing one
                impl::variable_table_info::entity_type em{}; for (auto& [var, i] : ix) em[var] = impl::value_info{m->value_offset(i), m->nullity_offset(i), i, impl::region_id{1}};
                infos[1] = impl::variable_table_info{em, m, &infos[2]};
            } else infos[k] = impl::variable_table_info{ix, m, k == 2 ? impl::region_id{0} : impl::region_id{}};
        }
        impl::variable_table host{infos[0]}; impl::variable_table_list list{}; list.emplace_back(infos[2]); list.emplace_back(infos[1]);
        auto cp = mem.get_checkpoint();
        for (int k = 0; k < 3; ++k) for (auto& [var, l] : g.vars[k]) put(k == 0 ? host.store().ref() : list[k == 1 ? 1 : 0].store().ref(), infos[k].at(var), utils::type_for(*l.ty), l, mem);
        evaluation{g, *tx, mem, impl::variables_view{list, 1}, &host}.run(root);
        mem.deallocate_after(cp);
    }
}
