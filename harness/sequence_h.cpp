// Sequences over the real manager, metadata store and kvs layer, on an in-memory engine (C09).
// Programs: "x : ops | ops | after ops"; a thread starting with "after" runs when the others have finished.
//   begin T, commit T, abort T, failput T; create T S init inc min max cyc, drop T S; draw T S; get S, ids T; sync; restart
// 64-bit values are written as q * 500000000 + r, standing for q * 2^62 + r with small r (so 999999999 is the largest value).
#include "prog.h"
#include "globals_stub.h"
#include "engine.h"
#include <jogasaki/constants.h>
#include <jogasaki/executor/common/ddl_common.h>
#include <jogasaki/executor/sequence/exception.h>
#include <jogasaki/executor/sequence/manager.h>
#include <jogasaki/executor/sequence/metadata_store.h>
#include <jogasaki/executor/sequence/sequence.h>
#include <jogasaki/executor/wrt/fill_record_fields.h>
#include <jogasaki/error/error_info_factory.h>
#include <jogasaki/kvs/database.h>
#include <jogasaki/kvs/transaction.h>
#include <jogasaki/kvs/transaction_option.h>
#include <jogasaki/request_context.h>
#include <jogasaki/storage/storage_manager.h>
#include <jogasaki/transaction_context.h>
#include <yugawara/storage/configurable_provider.h>
#include <yugawara/storage/sequence.h>
using namespace jogasaki;
namespace {
std::int64_t wide(int x) { long q = std::lround(x / 5e8); return static_cast<std::int64_t>(static_cast<__int128>(q) * (static_cast<__int128>(1) << 62) + (x - q * 500000000L)); }
std::string narrow(std::int64_t v) {
    auto q = static_cast<long>(std::floor(static_cast<long double>(v) / 0x1p62L + 0.5L));
    auto r = static_cast<__int128>(v) - static_cast<__int128>(q) * (static_cast<__int128>(1) << 62);
    if (r > 1000000 || r < -1000000) return "1999999999"; // no value a program leads to
    return std::to_string(q * 500000000L + static_cast<long>(r));
}
struct txc { std::shared_ptr<transaction_context> ctx{}; std::map<std::string, std::shared_ptr<yugawara::storage::sequence>> created{}; std::set<std::string> dropped{}; };
using defs = std::map<std::string, std::shared_ptr<yugawara::storage::sequence>>;
struct world {
    eng::engine e{}; std::shared_ptr<kvs::database> db{}; std::unique_ptr<executor::sequence::manager> mgr{};
    std::map<int, txc> txs{}; defs comm{}, dur{}; defs known{};
    std::shared_ptr<yugawara::storage::configurable_provider> prov{std::make_shared<yugawara::storage::configurable_provider>()};
};
struct call { request_context rc; call(world& w, std::shared_ptr<transaction_context> t) : rc(std::make_shared<configuration>(), nullptr, w.db, std::move(t), w.mgr.get()) {} };
std::unique_ptr<call> rctx(world& w, int t) { hist::quiet q; return std::make_unique<call>(w, w.txs[t].ctx); }
void gone(std::unique_ptr<call>& c) { hist::quiet q; c.reset(); }
void begin(world& w, int t) {
    hist::quiet q;
    std::unique_ptr<kvs::transaction> k{}; (void) kvs::transaction::create_transaction(*w.db, k, kvs::transaction_option{});
    auto& x = w.txs[t]; x = {};
    x.ctx = std::make_shared<transaction_context>(std::shared_ptr<kvs::transaction>(std::move(k)), nullptr);
    x.ctx->state(transaction_state_kind::init); x.ctx->state(transaction_state_kind::active);
}
void step(world& w, hist::recorder& rec, int id, prog::op const& o) {
    auto const& c = o[0];
    auto n = [&](std::size_t i) { return std::stoi(o[i]); };
    if (c == "begin") { rec.call(id, c, n(1)); begin(w, n(1)); rec.ret(id, "ok", 0); }
    else if (c == "commit") {
        auto& x = w.txs[n(1)]; rec.call(id, c, n(1));
        bool ok{}; x.ctx->object()->commit([&](sharksfin::StatusCode s, sharksfin::ErrorCode, std::uint64_t) { hist::quiet q; ok = s == sharksfin::StatusCode::OK; if (ok) { for (auto& [k, v] : x.created) w.comm[k] = v; for (auto& k : x.dropped) w.comm.erase(k); } });
        rec.ret(id, ok ? "ok" : "err", 0);
    } else if (c == "abort") { rec.call(id, c, n(1)); (void) w.txs[n(1)].ctx->object()->abort_transaction(); rec.ret(id, "ok", 0); }
    else if (c == "failput") { rec.call(id, c, n(1)); eng::T(w.txs[n(1)].ctx->object()->control_handle())->failput = true; rec.ret(id, "ok", 0); }
    else if (c == "create") {
        rec.call(id, c, n(1), o[2], n(3), n(4), n(5), n(6), n(7));
        auto r = rctx(w, n(1)); std::shared_ptr<yugawara::storage::sequence> s{};
        { hist::quiet q; s = std::make_shared<yugawara::storage::sequence>(std::nullopt, o[2], wide(n(3)), wide(n(4)), wide(n(5)), wide(n(6)), n(7) != 0); }
        bool ok = executor::common::create_generated_sequence(r->rc, *s, true);
        { hist::quiet q; if (ok) { w.txs[n(1)].created[o[2]] = s; w.known[o[2]] = s; } }
        rec.ret(id, ok ? "ok" : "err", ok ? static_cast<int>(*s->definition_id()) : 0); gone(r);
    } else if (c == "drop") {
        rec.call(id, c, n(1), o[2]);
        auto r = rctx(w, n(1)); bool ok = executor::common::remove_generated_sequence(r->rc, o[2], *w.known.at(o[2]));
        { hist::quiet q; w.txs[n(1)].dropped.insert(o[2]); }
        rec.ret(id, ok ? "ok" : "err", 0); gone(r);
    } else if (c == "draw") {
        rec.call(id, c, n(1), o[2]);
        auto r = rctx(w, n(1)); sequence_value v{}; auto def = w.known.at(o[2])->definition_id();
        auto st = executor::wrt::next_sequence_value(r->rc, *def, v);
        std::string k = st == status::ok ? "ok" : "err", val = st == status::ok ? narrow(v) : "0";
        { hist::quiet q; if (st == status::err_illegal_operation) { auto m = std::string{r->rc.error_info() ? r->rc.error_info()->message() : ""}; k = m.find("maximum") != std::string::npos ? "over" : m.find("minimum") != std::string::npos ? "under" : "?"; } else if (st == status::err_unknown && ! w.mgr->find_sequence(*def)) k = "none"; }
        rec.ret(id, k, hist::val{val}); gone(r);
    } else if (c == "get") {
        rec.call(id, c, o[1]); auto* s = w.mgr->find_sequence(*w.known.at(o[1])->definition_id());
        if (! s) { rec.ret(id, "none", 0); return; }
        auto g = s->get(); rec.ret(id, "v" + std::to_string(g.version_), hist::val{narrow(g.value_)});
    } else if (c == "ids") { // the definitions recorded in the system table, as a transaction sees them
        rec.call(id, c, n(1)); executor::sequence::metadata_store ms{*w.txs[n(1)].ctx->object()}; std::string l{}; std::size_t e{};
        ms.scan([&](std::int64_t d, std::int64_t) { hist::quiet q; l += (l.empty() ? "" : ",") + std::to_string(d); }); ms.find_next_empty_def_id(e);
        auto size = ms.size(); rec.ret(id, l + "#" + std::to_string(size), static_cast<int>(e));
    } else if (c == "sync") { rec.call(id, c); { hist::quiet q; w.e.sync(); w.dur = w.comm; } rec.ret(id, "ok", 0); }
    else if (c == "restart") {
        rec.call(id, c);
        { hist::quiet q; w.e.crash(); w.comm = w.dur; w.txs.clear(); w.prov = std::make_shared<yugawara::storage::configurable_provider>(); for (auto& [k, v] : w.dur) w.prov->add_sequence(v); w.mgr = std::make_unique<executor::sequence::manager>(*w.db); }
        std::string k = "ok";
        try {
            auto t = w.db->create_transaction();
            (void) w.mgr->load_id_map(t.get()); w.mgr->register_sequences(t.get(), w.prov, false);
            if (t->commit() != status::ok) k = "err";
        } catch (executor::sequence::exception const&) { k = "err"; }
        rec.ret(id, k, 0);
    }
}
explore::scenario make(prog::program const& p, hist::recorder& rec) {
    explore::scenario sc;
    auto w = std::make_shared<world>(); eng::cur = &w->e;
    w->e.names.insert(std::string{system_sequences_name});
    w->db = std::make_shared<kvs::database>(nullptr);
    w->mgr = std::make_unique<executor::sequence::manager>(*w->db);
    rec.init(0);
    sc.keep = [w] {};
    std::vector<prog::op> after{};
    for (std::size_t t = 0; t < p.threads.size(); ++t) {
        if (p.threads[t][0][0] == "after") { after = p.threads[t]; continue; }
        if (p.threads[t][0][0] == "before") { for (auto const& o : p.threads[t]) step(*w, rec, 97, o); continue; }
        sc.threads.emplace_back([w, t, &rec, ops = p.threads[t]] { for (auto const& o : ops) step(*w, rec, static_cast<int>(t), o); });
    }
    sc.finish = [w, &rec, after] { for (auto const& o : after) step(*w, rec, 98, o); w->txs.clear(); eng::cur = &w->e; };
    return sc;
}
}
namespace jogasaki::global {
std::shared_ptr<storage::storage_manager> const& storage_manager(std::shared_ptr<storage::storage_manager>) { static auto m = std::make_shared<storage::storage_manager>(); return m; }
std::shared_ptr<kvs::database> const& db(std::shared_ptr<kvs::database>) { static std::shared_ptr<kvs::database> d{}; return d; }
}
int main(int argc, char** argv) { (void) argc; return prog::drive(make, std::strtoull(argv[1], nullptr, 10)); }
