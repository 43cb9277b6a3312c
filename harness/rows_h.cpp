// Stores of records and the forward exchange (C13).
// Programs: "<column types> L=<limit|-> S=<sinks> Q=<result partitions> : ops | ops | after ops"
//   record store: rapp N R | rall | rcnt | rrst       iterable store: iapp N R | iall | icnt | irst     fifo store: push N R | pop N | fcnt      one record: sset R | sget
//   result store: qadd | qapp P N R | qall | qone P | qclr P | qex P | qcnt      forward exchange: w S N R | rel S | rd S N | act S | av S
#include "prog.h"
#include "globals_stub.h"
#include "rows.h"
#include <jogasaki/data/fifo_record_store.h>
#include <jogasaki/data/iterable_record_store.h>
#include <jogasaki/data/record_store.h>
#include <jogasaki/data/result_store.h>
#include <jogasaki/data/small_record_store.h>
#include <jogasaki/executor/exchange/forward/flow.h>
#include <jogasaki/executor/exchange/forward/forward_info.h>
#include <jogasaki/executor/exchange/forward/sink.h>
#include <jogasaki/executor/exchange/forward/source.h>
#include <jogasaki/executor/io/reader_container.h>
#include <jogasaki/executor/io/record_reader.h>
#include <jogasaki/executor/io/record_writer.h>
#include <jogasaki/executor/process/result_store_writer.h>
#include <jogasaki/memory/fifo_paged_memory_resource.h>
#include <jogasaki/memory/monotonic_paged_memory_resource.h>
#include <jogasaki/request_context.h>
#include <jogasaki/storage/storage_manager.h>
using namespace jogasaki;
namespace jogasaki::global {
std::shared_ptr<storage::storage_manager> const& storage_manager(std::shared_ptr<storage::storage_manager>) { static auto m = std::make_shared<storage::storage_manager>(); return m; }
}
namespace jogasaki::utils { [[noreturn]] void fail_with_exception_impl(std::string_view, std::string_view, std::string_view) { throw std::logic_error("fail_with_exception"); } }
namespace {
using rows::row;
struct world {
    std::string cols{}; std::shared_ptr<meta::record_meta> m{};
    memory::monotonic_paged_memory_resource r1{&global::page_pool()}, r2{&global::page_pool()}, i1{&global::page_pool()}, i2{&global::page_pool()}, s2{&global::page_pool()};
    memory::fifo_paged_memory_resource f1{&global::page_pool()}, f2{&global::page_pool()};
    std::unique_ptr<data::record_store> rs{}; std::vector<void*> ptrs{};
    std::unique_ptr<data::iterable_record_store> is{};
    std::unique_ptr<data::fifo_record_store> fs{};
    std::unique_ptr<data::small_record_store> ss{};
    std::unique_ptr<data::result_store> qs{};
    std::shared_ptr<executor::exchange::forward::forward_info> info{};
    request_context rq{};
    std::unique_ptr<executor::exchange::forward::flow> fl{};
    std::map<int, std::pair<accessor::record_ref, row>> last{}; // record most recently taken from the fifo store (-1) or a source
    std::map<int, executor::io::record_writer*> wr{};
};
hist::val B(std::string const& s) { return hist::val{s.substr(1, s.size() - 2)}; }
void step(world& w, hist::recorder& rec, int id, prog::op const& o) {
    auto const& c = o[0];
    auto n = [&](std::size_t i) { return std::stoi(o[i]); };
    auto get = [&](accessor::record_ref a) { hist::quiet q; return rows::read(w.cols, *w.m, a); };
    // writes n copies of a record from a buffer that is destroyed after each write, and returns the row found in the store (or the first wrong one)
    auto many = [&](int k, std::string const& s, auto f) {
        row const r = rows::parse(s); row out = r;
        std::unique_ptr<rows::buffer> b{};
        { hist::quiet q; b = std::make_unique<rows::buffer>(*w.m); }
        for (int i = 0; i < k; ++i) {
            accessor::record_ref a{};
            { hist::quiet q; a = b->fill(w.cols, r, i % 2 != 0); }
            void* p = f(a);
            hist::quiet q; b->spoil();
            if (p) { auto x = get(accessor::record_ref{p, w.m->record_size()}); if (x != r && out == r) out = x; }
        }
        hist::quiet q; b.reset();
        return rows::str(out);
    };
    auto still = [&](int k) { auto it = w.last.find(k); return it == w.last.end() || get(it->second.first) == it->second.second; }; // the record taken last is unchanged
    if (c == "rapp") { rec.call(id, c, n(1), rows::lit(o[2])); auto s = many(n(1), o[2], [&](auto a) { auto* p = w.rs->append(a); w.ptrs.push_back(p); return p; }); rec.ret(id, hist::val{s}); }
    else if (c == "rall") { rec.call(id, c); rows::runs u{}; for (auto* p : w.ptrs) u.add(get({p, w.m->record_size()})); rec.ret(id, B(u.str())); }
    else if (c == "rcnt") { rec.call(id, c); rec.ret(id, static_cast<int>(w.rs->count()), w.rs->empty()); }
    else if (c == "rrst") { rec.call(id, c); w.rs->reset(); w.ptrs.clear(); rec.ret(id, 0); }
    else if (c == "iapp") { rec.call(id, c, n(1), rows::lit(o[2])); auto s = many(n(1), o[2], [&](auto a) { return w.is->append(a).data(); }); rec.ret(id, hist::val{s}); }
    else if (c == "iall") { rec.call(id, c); rows::runs u{}; for (auto it = w.is->begin(); it != w.is->end(); ++it) u.add(get(*it)); rec.ret(id, B(u.str())); }
    else if (c == "icnt") { rec.call(id, c); rec.ret(id, static_cast<int>(w.is->count()), w.is->empty()); }
    else if (c == "irst") { rec.call(id, c); w.is->reset(); rec.ret(id, 0); }
    else if (c == "push") { rec.call(id, c, n(1), rows::lit(o[2])); auto s = many(n(1), o[2], [&](auto a) { return w.fs->push(a); }); rec.ret(id, hist::val{s}); }
    else if (c == "pop") {
        rec.call(id, c, n(1)); rows::runs u{}; bool more = true; bool ok = true;
        for (int i = 0; i < n(1) && more; ++i) {
            ok = still(-1) && ok;
            accessor::record_ref a{}; more = w.fs->try_pop(a);
            if (more) { auto r = get(a); u.add(r); w.last[-1] = {a, r}; } else w.last.erase(-1);
        }
        rec.ret(id, hist::val{u.str()}, more, ok);
    }
    else if (c == "fcnt") { rec.call(id, c); rec.ret(id, static_cast<int>(w.fs->count()), w.fs->empty()); }
    else if (c == "sset") { rec.call(id, c, rows::lit(o[1])); auto s = many(1, o[1], [&](auto a) { return w.ss->set(a); }); rec.ret(id, hist::val{s}); }
    else if (c == "sget") { rec.call(id, c); rec.ret(id, hist::val{rows::str(get(w.ss->ref()))}); }
    else if (c == "qadd") { rec.call(id, c); auto r = w.qs->add_partition(); rec.ret(id, static_cast<int>(r)); }
    else if (c == "qapp") {
        rec.call(id, c, n(1), n(2), rows::lit(o[3]));
        executor::process::result_store_writer x{w.qs->partition(n(1)), w.m};
        auto s = many(n(2), o[3], [&](auto a) -> void* { x.write(a); return nullptr; });
        x.flush(); x.release();
        rec.ret(id, hist::val{s});
    }
    else if (c == "qall") { rec.call(id, c); rows::runs u{}; for (auto it = w.qs->begin(); it != w.qs->end(); ++it) u.add(get(*it)); rec.ret(id, B(u.str())); }
    else if (c == "qone") { rec.call(id, c, n(1)); rows::runs u{}; auto& p = w.qs->partition(n(1)); for (auto it = p.begin(); it != p.end(); it++) u.add(get(*it)); rec.ret(id, B(u.str())); }
    else if (c == "qclr") { rec.call(id, c, n(1)); w.qs->clear_partition(n(1)); rec.ret(id, 0); }
    else if (c == "qex") { rec.call(id, c, n(1)); rec.ret(id, w.qs->exists(n(1))); }
    else if (c == "qcnt") { rec.call(id, c); rec.ret(id, static_cast<int>(w.qs->partitions()), w.qs->empty()); }
    else if (c == "w") {
        rec.call(id, c, n(1), n(2), rows::lit(o[3])); bool ok = true;
        auto& x = w.fl->sink_at(n(1)).acquire_writer();
        { hist::quiet q; w.wr[n(1)] = &x; }
        many(n(2), o[3], [&](auto a) -> void* { ok = x.write(a) && ok; return nullptr; });
        rec.ret(id, ok);
    }
    else if (c == "rel") { rec.call(id, c, n(1)); auto& x = w.fl->sink_at(n(1)).acquire_writer(); x.flush(); x.release(); rec.ret(id, 0); }
    else if (c == "rd") {
        rec.call(id, c, n(1), n(2)); rows::runs u{}; bool more = true; bool ok = true;
        auto* rd = w.fl->source_at(n(1)).acquire_reader().reader<executor::io::record_reader>();
        for (int i = 0; i < n(2) && more; ++i) {
            ok = still(n(1)) && ok;
            more = rd->next_record();
            if (more) { auto r = get(rd->get_record()); u.add(r); w.last[n(1)] = {rd->get_record(), r}; } else w.last.erase(n(1));
        }
        rec.ret(id, hist::val{u.str()}, more, ok);
    }
    else if (c == "act") { rec.call(id, c, n(1)); auto* rd = w.fl->source_at(n(1)).acquire_reader().reader<executor::io::record_reader>(); bool r = rd->source_active(); rec.ret(id, r); }
    else if (c == "av") { rec.call(id, c, n(1)); auto* rd = w.fl->source_at(n(1)).acquire_reader().reader<executor::io::record_reader>(); bool r = rd->available(); rec.ret(id, r); }
}
explore::scenario make(prog::program const& p, hist::recorder& rec) {
    explore::scenario sc;
    auto w = std::make_shared<world>();
    w->cols = p.init[0]; if (w->cols == "0") w->cols = "";
    w->m = rows::meta_of(w->cols);
    int lim = -1, sinks = 1, parts = 0;
    for (auto const& s : p.init) { if (s[1] != '=' || s[2] == '-') continue; int v = std::stoi(s.substr(2)); if (s[0] == 'L') lim = v; if (s[0] == 'S') sinks = v; if (s[0] == 'Q') parts = v; }
    w->rs = std::make_unique<data::record_store>(&w->r1, &w->r2, w->m);
    w->is = std::make_unique<data::iterable_record_store>(&w->i1, &w->i2, w->m);
    w->fs = std::make_unique<data::fifo_record_store>(&w->f1, &w->f2, w->m);
    w->ss = std::make_unique<data::small_record_store>(w->m, &w->s2);
    w->qs = std::make_unique<data::result_store>();
    if (parts > 0) w->qs->initialize(parts, w->m); else w->qs->initialize(w->m);
    w->info = lim < 0 ? std::make_shared<executor::exchange::forward::forward_info>(w->m) : std::make_shared<executor::exchange::forward::forward_info>(w->m, lim);
    w->fl = std::make_unique<executor::exchange::forward::flow>(w->info, &w->rq, nullptr);
    w->fl->setup_partitions(sinks);
    rec.init(lim, sinks, parts, static_cast<int>(w->fl->sink_count()), static_cast<int>(w->fl->source_count()));
    sc.keep = [w] {};
    std::vector<prog::op> after{}; bool ff = false; std::set<int> qs{};
    for (std::size_t i = 0; i < p.threads.size(); ++i) {
        if (! p.threads[i].empty() && p.threads[i][0][0] == "after") { after = p.threads[i]; after.erase(after.begin()); continue; }
        for (auto const& o : p.threads[i]) if (o[0] == "w" || o[0] == "rd") ff = true;
        sc.threads.emplace_back([w, i, &rec, ops = p.threads[i]] { for (auto const& o : ops) step(*w, rec, static_cast<int>(i), o); });
    }
    sc.finish = [w, &rec, after, sinks, ff] {
        auto big = std::string{"1000000"};
        for (auto const& o : after) step(*w, rec, 98, o);
        if (ff) for (int i = 0; i < sinks; ++i) { step(*w, rec, 98, {"act", std::to_string(i)}); step(*w, rec, 98, {"rel", std::to_string(i)}); step(*w, rec, 98, {"act", std::to_string(i)}); step(*w, rec, 98, {"rd", std::to_string(i), big}); step(*w, rec, 98, {"rd", std::to_string(i), "1"}); step(*w, rec, 98, {"av", std::to_string(i)}); }
        if (w->qs->partitions() > 0) step(*w, rec, 98, {"qcnt"}), step(*w, rec, 98, {"qall"});
        if (w->rs->count() > 0) step(*w, rec, 98, {"rall"});
        if (w->is->count() > 0) step(*w, rec, 98, {"iall"});
        if (w->fs->count() > 0) step(*w, rec, 98, {"pop", big}), step(*w, rec, 98, {"fcnt"});
    };
    return sc;
}
}
int main(int argc, char** argv) { (void) argc; return prog::drive(make, std::strtoull(argv[1], nullptr, 10)); }
