// Group exchange (C17), aggregate exchange and value stores (C18): commands from standard input, one event per line.
//   RESET
//   new F g COLS keys sort limit parts sinks sv     group flow: keys "0,1" or "-", sort "2a,3d" or "-", limit number or "-", sinks "2,1" (several setups), sv 0|1 (sorted vector reader)
//   new F a COLS keys vals empty parts sinks        aggregate flow: vals "sum:1,count:2,count_rows:0", empty 0|1 (a record for empty input)
//   small F SIZE [HASH]                             input partitions with pointer tables of SIZE entries (and hash tables of HASH buckets)
//   w F S N row | go F | rd F P | end F
//   vs V T | va V N v | vl V | vc V | vd V | vr V    value store of type T
#include <cmath>
#include <cstring>
#include <map>
#include "hist.h"
#include "seq.h"
#include "globals_stub.h"
#include "rows.h"
#include <jogasaki/configuration.h>
#include <jogasaki/data/value_store.h>
#include <jogasaki/executor/exchange/aggregate/aggregate_info.h>
#include <jogasaki/executor/exchange/aggregate/flow.h>
#include <jogasaki/executor/exchange/aggregate/input_partition.h>
#include <jogasaki/executor/exchange/aggregate/sink.h>
#include <jogasaki/executor/exchange/aggregate/source.h>
#include <jogasaki/executor/exchange/group/flow.h>
#include <jogasaki/executor/exchange/group/group_info.h>
#include <jogasaki/executor/exchange/group/input_partition.h>
#include <jogasaki/executor/exchange/group/sink.h>
#include <jogasaki/executor/exchange/group/source.h>
#include <jogasaki/executor/function/incremental/aggregate_function_kind.h>
#include <jogasaki/executor/function/builtin_functions.h>
#include <jogasaki/executor/function/incremental/aggregate_function_info.h>
#include <jogasaki/executor/io/group_reader.h>
#include <jogasaki/executor/io/reader_container.h>
#include <jogasaki/executor/io/record_writer.h>
#include <jogasaki/memory/lifo_paged_memory_resource.h>
#include <jogasaki/memory/monotonic_paged_memory_resource.h>
#include <jogasaki/request_context.h>
#include <jogasaki/storage/storage_manager.h>
using namespace jogasaki;
namespace jogasaki::global {
std::shared_ptr<storage::storage_manager> const& storage_manager(std::shared_ptr<storage::storage_manager>) { static auto m = std::make_shared<storage::storage_manager>(); return m; }
}
namespace jogasaki::utils { [[noreturn]] void fail_with_exception_impl(std::string_view, std::string_view, std::string_view) { throw std::logic_error("fail_with_exception"); } }
namespace {
namespace ex = executor::exchange;
namespace fn = executor::function::incremental;
using afk = fn::aggregate_function_kind;
using rows::row;
constexpr int null_v = -9999999, nan_v = 9999999;
fn::aggregate_function_info const& function(std::string const& s) {
    static fn::aggregate_function_info_impl<afk::sum> sum{}; static fn::aggregate_function_info_impl<afk::count> count{}; static fn::aggregate_function_info_impl<afk::count_rows> count_rows{};
    static fn::aggregate_function_info_impl<afk::avg> avg{}; static fn::aggregate_function_info_impl<afk::max> max{}; static fn::aggregate_function_info_impl<afk::min> min{};
    if (s == "sum") return sum;
    if (s == "count") return count;
    if (s == "count_rows") return count_rows;
    if (s == "avg") return avg;
    if (s == "max") return max;
    return min;
}
std::vector<std::string> split(std::string const& s, char d = ',') {
    std::vector<std::string> r{}; if (s == "-") return r;
    std::stringstream t{s}; std::string x{}; while (std::getline(t, x, d)) r.push_back(x);
    return r;
}
int thousand(double x) { return std::isnan(x) ? nan_v : static_cast<int>(std::llround(x * 1000)); }
struct flow {
    std::string cols{}; std::shared_ptr<meta::record_meta> m{};
    std::shared_ptr<configuration> cfg{std::make_shared<configuration>()};
    std::unique_ptr<request_context> rq{};
    std::shared_ptr<ex::group::group_info> gi{}; std::unique_ptr<ex::group::flow> g{};
    std::shared_ptr<ex::aggregate::aggregate_info> ai{}; std::unique_ptr<ex::aggregate::flow> a{};
    std::string key_cols{}; std::vector<std::pair<std::string, char>> vals{};
    std::unique_ptr<rows::buffer> buf{};
    std::map<int, executor::io::record_writer*> wr{};
    ex::shuffle::flow* f() { return g ? static_cast<ex::shuffle::flow*>(g.get()) : a.get(); }
};
int result(std::string const& f, char c, meta::record_meta const& m, std::size_t i, accessor::record_ref r) {
    if (r.is_null(m.nullity_offset(i))) return null_v;
    auto o = m.value_offset(i);
    if (f == "count" || f == "count_rows") { auto x = r.get_value<std::int64_t>(o); return x >= 0 && x < 1000000000 ? static_cast<int>(x) : -2; }
    if (f == "max" || f == "min") return rows::read(static_cast<char>(std::toupper(c)), r, o, 0);
    switch (c) {
        case 'i': return static_cast<int>(r.get_value<std::int64_t>(o) * 1000);
        case 'j': return r.get_value<std::int32_t>(o) * 1000;
        case 'f': return thousand(r.get_value<double>(o));
        case 'g': return thousand(r.get_value<float>(o));
        default: return thousand(std::stod(static_cast<decimal::Decimal>(r.get_value<takatori::decimal::triple>(o)).to_sci()));
    }
}
struct vstore {
    char t{}; std::unique_ptr<memory::lifo_paged_memory_resource> r{}, v{}, n{}; std::unique_ptr<data::value_store> s{};
};
template <class F> void with(char t, F f) {
    using k = meta::field_type_kind;
    switch (t) {
        case 'b': f(std::integral_constant<k, k::boolean>{}); break;
        case 'i': f(std::integral_constant<k, k::int8>{}); break;
        case 'j': f(std::integral_constant<k, k::int4>{}); break;
        case 'f': f(std::integral_constant<k, k::float8>{}); break;
        case 'g': f(std::integral_constant<k, k::float4>{}); break;
        case 'n': f(std::integral_constant<k, k::decimal>{}); break;
        case 's': f(std::integral_constant<k, k::character>{}); break;
        case 'o': f(std::integral_constant<k, k::octet>{}); break;
        case 'd': f(std::integral_constant<k, k::date>{}); break;
        case 'y': f(std::integral_constant<k, k::time_of_day>{}); break;
        default: f(std::integral_constant<k, k::time_point>{}); break;
    }
}
struct world {
    std::map<int, flow> fs{}; std::map<int, vstore> vs{};
    std::vector<std::unique_ptr<memory::page_pool>> keep{};
};
std::string read_source(flow& f, std::size_t p) {
    auto& s = f.g ? f.g->source_at(p) : f.a->source_at(p);
    auto rc = s.acquire_reader();
    auto& r = *rc.reader<executor::io::group_reader>();
    std::string out{"["};
    auto const& km = f.g ? *f.gi->key_meta() : f.ai->post().group_meta()->key();
    auto const& vm = f.g ? *f.m : f.ai->post().group_meta()->value();
    bool first = true;
    while (r.next_group()) {
        row key = rows::read(f.key_cols, km, r.get_group());
        rows::runs u{};
        while (r.next_member()) {
            row k = rows::read(f.key_cols, km, r.get_group());
            if (k != key) { u.add(row{-9}); continue; }
            auto x = r.get_member();
            if (f.g) { u.add(rows::read(f.cols, vm, x)); continue; }
            row v{}; for (std::size_t i = 0; i < f.vals.size(); ++i) v.push_back(result(f.vals[i].first, f.vals[i].second, vm, i, x));
            u.add(v);
        }
        out += (first ? "[" : ",[") + rows::str(key) + "," + u.str() + "]";
        first = false;
    }
    r.release();
    return out + "]";
}
void command(std::unique_ptr<world>& w, std::string const& line) {
    std::stringstream in{line}; std::vector<std::string> o{}; std::string x{};
    while (in >> x) o.push_back(x);
    if (o.empty()) return;
    auto const& c = o[0];
    if (c == "RESET") { w = std::make_unique<world>(); ev_init(); return; }
    auto n = [&](std::size_t i) { return std::stoi(o[i]); };
    if (c == "new") {
        auto& f = w->fs[n(1)];
        f.cols = o[3]; f.m = rows::meta_of(f.cols);
        bool grp = o[2] == "g";
        if (grp && o[9] == "1") f.cfg->use_sorted_vector(true);
        f.rq = std::make_unique<request_context>(f.cfg);
        std::vector<std::size_t> keys{}; std::string ks{"["}, es{"["};
        for (auto const& k : split(o[4])) { ks += (keys.empty() ? "" : ",") + k; keys.push_back(std::stoul(k)); f.key_cols += f.cols[keys.back()]; }
        std::size_t parts{}; std::vector<std::string> sinks{};
        if (grp) {
            std::vector<std::size_t> si{}; std::vector<executor::ordering> so{};
            for (auto const& s : split(o[5])) {
                si.push_back(std::stoul(s.substr(0, s.size() - 1))); so.push_back(s.back() == 'd' ? executor::ordering::descending : executor::ordering::ascending);
                es += (si.size() > 1 ? ",[" : "[") + std::to_string(si.back()) + "," + (s.back() == 'd' ? "1" : "0") + "]";
            }
            f.gi = std::make_shared<ex::group::group_info>(f.m, keys, si, so, o[6] == "-" ? std::optional<std::size_t>{} : std::optional<std::size_t>{std::stoul(o[6])});
            parts = std::stoul(o[7]); sinks = split(o[8]);
            f.g = std::make_unique<ex::group::flow>(f.gi, f.rq.get(), nullptr, parts);
        } else {
            std::vector<ex::aggregate::aggregate_info::value_spec> vs{};
            for (auto const& s : split(o[5])) {
                auto q = split(s, ':'); auto i = std::stoul(q[1]); char t = f.cols[i];
                bool rws = q[0] == "count_rows";
                vs.emplace_back(function(q[0]), rws ? std::vector<std::size_t>{} : std::vector<std::size_t>{i}, q[0] == "count" || rws ? meta::field_type{meta::field_enum_tag<meta::field_type_kind::int8>} : rows::type_of(t));
                f.vals.emplace_back(q[0], rows::low(t)); es += (vs.size() > 1 ? ",[" : "[") + js(q[0]) + "," + q[1] + "," + js(std::string(1, t)) + "]";
            }
            f.ai = std::make_shared<ex::aggregate::aggregate_info>(f.m, keys, vs, o[6] == "1");
            parts = std::stoul(o[7]); sinks = split(o[8]);
            f.a = std::make_unique<ex::aggregate::flow>(f.ai, f.rq.get(), nullptr, parts);
        }
        int total{};
        for (auto const& s : sinks) { f.f()->setup_partitions(std::stoul(s)); total += std::stoi(s); }
        f.buf = std::make_unique<rows::buffer>(*f.m);
        std::string types{}; for (char t : f.key_cols) types += rows::low(t);
        auto nsrc = f.g ? f.g->source_count() : f.a->source_count(); auto nsnk = f.g ? f.g->sink_count() : f.a->sink_count();
        ev("new", o[1] + "," + js(o[2]) + "," + js(f.cols) + "," + ks + "]," + es + "]," + (grp && o[6] != "-" ? o[6] : "-1") + "," + std::to_string(parts) + "," + std::to_string(total) + "," + (! grp && o[6] == "1" ? "1" : "0") + "," + js(types),
            "[" + std::to_string(nsrc) + "," + std::to_string(nsnk) + "]");
    } else if (c == "small") {
        auto& f = w->fs[n(1)]; auto size = static_cast<std::size_t>(n(2)), h = static_cast<std::size_t>(o.size() > 3 ? n(3) : 1);
        auto res = [] { return std::make_unique<memory::monotonic_paged_memory_resource>(&global::page_pool()); };
        if (f.g) for (std::size_t i = 0; i < f.g->sink_count(); ++i) {
            auto& ps = static_cast<ex::group::sink&>(f.g->sink_at(i)).input_partitions();
            for (std::size_t k = 0; k < f.g->source_count(); ++k) ps.emplace_back(std::make_unique<ex::group::input_partition>(res(), res(), res(), f.gi, f.rq.get(), size));
        }
        else for (std::size_t i = 0; i < f.a->sink_count(); ++i) {
            auto& ps = static_cast<ex::aggregate::sink&>(f.a->sink_at(i)).input_partitions();
            for (std::size_t k = 0; k < f.a->source_count(); ++k) ps.emplace_back(std::make_unique<ex::aggregate::input_partition>(f.ai, h, size));
        }
    } else if (c == "w") {
        auto& f = w->fs[n(1)]; auto r = rows::parse(o[4]);
        auto& wr = f.wr[n(2)];
        if (! wr) wr = f.g ? &f.g->sink_at(n(2)).acquire_writer() : &f.a->sink_at(n(2)).acquire_writer();
        for (int i = 0; i < n(3); ++i) { f.buf->fill(f.cols, r, i % 2 != 0); wr->write(f.buf->ref()); f.buf->spoil(); }
        ev("w", o[1] + "," + o[2] + "," + o[3] + "," + rows::str(r), "0");
    } else if (c == "rel") {
        auto& f = w->fs[n(1)]; auto& wr = f.wr[n(2)];
        if (wr) { wr->flush(); wr->release(); wr = nullptr; }
    } else if (c == "go") {
        auto& f = w->fs[n(1)];
        for (auto& e : f.wr) if (e.second) { e.second->flush(); e.second->release(); }
        f.wr.clear();
        auto drop = [](auto& ps) { for (auto& p : ps) if (p && p->tables_count() == 0) p.reset(); };
        for (std::size_t i = 0; f.g && i < f.g->sink_count(); ++i) drop(static_cast<ex::group::sink&>(f.g->sink_at(i)).input_partitions());
        for (std::size_t i = 0; f.a && i < f.a->sink_count(); ++i) { auto& ps = static_cast<ex::aggregate::sink&>(f.a->sink_at(i)).input_partitions(); drop(ps); bool any = false; for (auto& p : ps) any = any || p; if (! any) ps.clear(); }
        if (f.g) (void) f.g->create_tasks(); else (void) f.a->create_tasks();
        ev("go", o[1], f.f()->info().empty_input() ? "1" : "0");
    } else if (c == "rd") { ev("rd", o[1] + "," + o[2], read_source(w->fs[n(1)], n(2))); }
    else if (c == "end") { ev("end", o[1], "0"); }
    else if (c == "vs") {
        auto& v = w->vs[n(1)]; v.t = o[2][0];
        auto res = [] { return std::make_unique<memory::lifo_paged_memory_resource>(&global::page_pool()); };
        v.r = res(); v.v = res(); v.n = res();
        v.s = std::make_unique<data::value_store>(rows::type_of(v.t), v.r.get(), v.v.get(), v.n.get());
        ev("vs", o[1], "0");
    } else if (c == "va") {
        auto& v = w->vs[n(1)]; int k = n(3);
        std::string cols(1, v.t); auto m = rows::meta_of(cols); rows::buffer b{*m};
        for (int i = 0; i < n(2); ++i) {
            if (k < 0) { v.s->append_null(); continue; }
            auto r = b.fill(cols, {k}, i % 2 != 0);
            with(v.t, [&](auto kd) { v.s->append<runtime_t<decltype(kd)::value>>(r.get_value<runtime_t<decltype(kd)::value>>(m->value_offset(0))); });
            b.spoil();
        }
        ev("va", o[1] + "," + o[2] + "," + o[3], "0");
    } else if (c == "vl") {
        auto& v = w->vs[n(1)]; rows::runs u{};
        with(v.t, [&](auto kd) {
            using T = runtime_t<decltype(kd)::value>;
            auto e = v.s->end<T>();
            for (auto it = v.s->begin<T>(); it != e; ++it) {
                if (it.is_null()) { u.add({-1}); continue; }
                T x = *it; u.add({rows::read(static_cast<char>(std::toupper(v.t)), accessor::record_ref{&x, sizeof x}, 0, 0)});
            }
        });
        ev("vl", o[1], u.str());
    } else if (c == "vc") { auto& v = w->vs[n(1)]; ev("vc", o[1], "[" + std::to_string(v.s->count()) + "," + (v.s->empty() ? "1" : "0") + "]"); }
    else if (c == "vd") {
        auto& v = w->vs[n(1)]; auto m = rows::meta_of("i"); rows::buffer b{*m}; b.fill("i", {-1});
        executor::function::field_locator loc{m->at(0), true, m->value_offset(0), m->nullity_offset(0)};
        std::vector<std::reference_wrapper<data::value_store>> args{*v.s};
        executor::function::builtin::count_distinct(b.ref(), loc, args);
        ev("vd", o[1], b.ref().is_null(m->nullity_offset(0)) ? "-1" : std::to_string(b.ref().get_value<std::int64_t>(m->value_offset(0))));
    } else if (c == "vr") {
        auto& v = w->vs[n(1)]; v.s->reset();
        auto p = memory::lifo_paged_memory_resource::initial_checkpoint;
        v.r->deallocate_after(p); v.v->deallocate_after(p); v.n->deallocate_after(p);
        ev("vr", o[1], "0");
    }
}
}
int main() {
    std::unique_ptr<world> w{}; std::string line{};
    while (std::getline(std::cin, line)) command(w, line);
}
