// Large objects: sessions of tasks, admission of values returned by functions, registration in the datastore (C19).
// Programs: "<R0|R1 relay service> <M0|M1 mock tags> <K1 container kind: w work context, p plain>... : ops | ops | after ops"
//   init words: R=0|1 M=0|1 T=<kind><transaction>,...   e.g. R=1 M=0 T=w1,p1,w2
//   ops: sess T | get T | disp T | end T | put T o | pre T b|c id | post T b|c prov id g|o|n|b|z | reg T path temp | regd T data | dup T id | res T id
//        find id | data id | out T b|c prov id | endtx X | bad f|t|g (next registration / tag / lookup fails)
#define private public
#include <jogasaki/executor/io/data_channel_writer.h>
#undef private
#include "prog.h"
#include "globals_stub.h"
#include <data_relay_grpc/blob_relay/service.h>
#include <limestone/api/datastore.h>
#include <jogasaki/accessor/record_ref.h>
#include <jogasaki/api/data_channel.h>
#include <jogasaki/api/writer.h>
#include <jogasaki/datastore/assign_lob_id.h>
#include <jogasaki/datastore/find_path_by_lob_id.h>
#include <jogasaki/datastore/get_datastore.h>
#include <jogasaki/datastore/get_lob_data.h>
#include <jogasaki/datastore/register_lob.h>
#include <jogasaki/error/error_info.h>
#include <jogasaki/executor/expr/evaluator_context.h>
#include <jogasaki/executor/expr/lob_processing.h>
#include <jogasaki/executor/io/record_channel_adapter.h>
#include <jogasaki/executor/process/impl/work_context.h>
#include <jogasaki/kvs/database.h>
#include <jogasaki/lob/blob_reference.h>
#include <jogasaki/lob/clob_reference.h>
#include <jogasaki/memory/lifo_paged_memory_resource.h>
#include <jogasaki/meta/external_record_meta.h>
#include <jogasaki/relay/blob_session_container.h>
#include <jogasaki/serializer/value_input.h>
#include <jogasaki/storage/storage_manager.h>
#include <jogasaki/transaction_context.h>
using namespace jogasaki;
namespace {
struct world;
struct fake_session : data_relay_grpc::common::blob_session {
    fake_session(world& w, int id) : w_(w), id_(id) {}
    session_id_type session_id() const noexcept override { return id_; }
    void dispose() override;
    std::optional<blob_path_type> find(blob_id_type o) const override;
    blob_tag_type compute_tag(blob_id_type o) const override;
    world& w_; int id_; std::map<std::uint64_t, std::string> objs_{};
};
struct fake_relay : data_relay_grpc::blob_relay::blob_relay_service {
    explicit fake_relay(world& w) : w_(w) {}
    data_relay_grpc::common::blob_session& create_session(std::optional<std::uint64_t> transaction_id) override;
    world& w_;
};
struct fake_pool : limestone::api::blob_pool {
    fake_pool(world& w, int id) : w_(w), id_(id) {}
    ~fake_pool() override;
    void release() override;
    limestone::api::blob_id_type register_file(boost::filesystem::path const& file, bool is_temporary_file) override;
    limestone::api::blob_id_type register_data(std::string_view data) override;
    limestone::api::blob_id_type duplicate_data(limestone::api::blob_id_type reference) override;
    limestone::api::blob_id_type add(std::string const& kind, std::string const& what, int temp);
    world& w_; int id_;
};
struct fake_store : limestone::api::datastore {
    explicit fake_store(world& w) : w_(w) {}
    std::unique_ptr<limestone::api::blob_pool> acquire_blob_pool() override;
    limestone::api::blob_file get_blob_file(limestone::api::blob_id_type reference) override;
    limestone::api::blob_reference_tag_type generate_reference_tag(limestone::api::blob_id_type blob_id, std::uint64_t transaction_id) override;
    world& w_;
};
struct fake_writer : api::writer {
    status write(char const* data, std::size_t length) override { buf_.append(data, length); return status::ok; }
    status commit() override { return status::ok; }
    std::string buf_{};
};
struct fake_channel : api::data_channel {
    status acquire(std::shared_ptr<api::writer>& wrt) override { wrt = w_; return status::ok; }
    status release(api::writer&) override { return status::ok; }
    std::optional<std::size_t> max_writer_count() override { return {}; }
    std::shared_ptr<fake_writer> w_{std::make_shared<fake_writer>()};
};
struct task {
    int tx{}; char kind{};
    std::shared_ptr<transaction_context> t{};
    std::unique_ptr<executor::process::impl::work_context> wc{};
    std::unique_ptr<relay::blob_session_container> pc{};
    relay::blob_session_container& c() { return wc ? wc->blob_session_container() : *pc; }
};
struct world {
    hist::recorder* rec{};
    std::map<int, std::shared_ptr<transaction_context>> txs{}; std::map<int, int> name{}; // surrogate id -> name
    std::map<int, task> tasks{}; std::map<int, std::unique_ptr<fake_session>> ss{};
    std::map<std::uint64_t, std::string> blobs{}; std::set<void*> pools{};
    std::shared_ptr<fake_relay> relay{}; std::shared_ptr<fake_store> store{};
    std::shared_ptr<configuration> cfg{std::make_shared<configuration>()};
    std::shared_ptr<kvs::database> db{};
    std::map<int, char> bad{}; // thread -> what fails next
    int np{}, nid{100}; std::set<std::string> chans{};
    std::shared_ptr<meta::record_meta> bm{}, cm{};
};
world* cur{};
thread_local int me{}, mytx{}, mytask{};
thread_local char const* doing{""};
void ev(char const* op, std::string const& a, std::string const& v = "[]") { hist::quiet q; cur->rec->seqraw(me, op, a, v); }
template <class... X> std::string A(X&&... a) { return hist::arr(std::forward<X>(a)...); }
int txname(std::optional<std::uint64_t> const& id) { if (! id) return -1; auto it = cur->name.find(static_cast<int>(*id)); return it == cur->name.end() ? -2 : it->second; }
void fake_session::dispose() { coop::point(); ev("dps", A(id_)); }
std::optional<std::filesystem::path> fake_session::find(blob_id_type o) const { coop::point(); hist::quiet q; auto it = objs_.find(o); if (it == objs_.end()) return {}; return std::filesystem::path{it->second}; }
std::uint64_t stag(int s, std::uint64_t o) { return o * 1000 + 500 + s; }
std::uint64_t dtag(int tx, std::uint64_t id) { return id * 1000 + tx; }
std::uint64_t fake_session::compute_tag(blob_id_type o) const { return stag(id_, o); }
data_relay_grpc::common::blob_session& fake_relay::create_session(std::optional<std::uint64_t> transaction_id) {
    coop::point(); hist::quiet q;
    int id = static_cast<int>(w_.ss.size()) + 1;
    auto& s = w_.ss[id]; s = std::make_unique<fake_session>(w_, id);
    ev("mks", A(mytask, id, txname(transaction_id)));
    return *s;
}
fake_pool::~fake_pool() { hist::quiet q; w_.pools.erase(this); ev("gone", A(id_)); }
void fake_pool::release() { coop::point(); ev("rel", A(id_)); }
std::uint64_t fake_pool::add(std::string const& kind, std::string const& what, int temp) {
    coop::point(); hist::quiet q;
    if (! w_.pools.count(this)) { ev("lost", A(id_)); return 0; }
    auto& b = w_.bad[me];
    if (b == 'f') { b = 0; ev("regf", A(id_)); throw limestone::api::limestone_blob_exception("refused"); }
    auto id = ++w_.nid;
    w_.blobs[id] = "f" + std::to_string(id);
    ev("reg", A(mytx, id_, id, kind, what, temp));
    return id;
}
std::uint64_t fake_pool::register_file(boost::filesystem::path const& file, bool t) { return add("file", file.string(), t ? 1 : 0); }
std::uint64_t fake_pool::register_data(std::string_view d) { return add("data", std::string(d), 0); }
std::uint64_t fake_pool::duplicate_data(std::uint64_t r) { return add("dup", std::to_string(r), 0); }
std::unique_ptr<limestone::api::blob_pool> fake_store::acquire_blob_pool() {
    coop::point(); hist::quiet q;
    auto p = std::make_unique<fake_pool>(w_, ++w_.np); w_.pools.insert(p.get());
    ev("pool", A(mytx, w_.np));
    return p;
}
limestone::api::blob_file fake_store::get_blob_file(std::uint64_t r) {
    coop::point(); hist::quiet q;
    auto& b = w_.bad[me]; if (b == 'g') { b = 0; throw limestone::api::limestone_blob_exception("refused"); }
    auto it = w_.blobs.find(r);
    return it == w_.blobs.end() ? limestone::api::blob_file{{}, false} : limestone::api::blob_file{it->second, true};
}
std::uint64_t fake_store::generate_reference_tag(std::uint64_t id, std::uint64_t tx) {
    coop::point(); hist::quiet q;
    auto& b = w_.bad[me]; if (b == 't') { b = 0; throw std::runtime_error("refused"); }
    return dtag(txname(tx), id);
}
}
namespace jogasaki::global {
std::shared_ptr<storage::storage_manager> const& storage_manager(std::shared_ptr<storage::storage_manager>) { static auto m = std::make_shared<storage::storage_manager>(); return m; }
std::shared_ptr<kvs::database> const& db(std::shared_ptr<kvs::database>) { return cur->db; }
std::shared_ptr<data_relay_grpc::blob_relay::blob_relay_service> const& relay_service() { static thread_local std::shared_ptr<data_relay_grpc::blob_relay::blob_relay_service> r{}; hist::quiet q; r = cur->relay; return r; }
}
namespace jogasaki::kvs {
database::database(DatabaseHandle h) : handle_(h) {}
database::~database() noexcept = default;
status database::get_datastore(std::any& out) { out = static_cast<void*>(static_cast<limestone::api::datastore*>(cur->store.get())); return status::ok; }
std::unique_ptr<transaction> transaction::acquire_strand() noexcept { return {}; }
}
namespace jogasaki::utils { [[noreturn]] void fail_with_exception_impl(std::string_view, std::string_view, std::string_view) { throw std::logic_error("fail_with_exception"); } }
namespace {
hist::val B(std::string const& s) { return hist::val{s.substr(1, s.size() - 2)}; }
std::string err(std::shared_ptr<error::error_info> const& e, status st) { return hist::arr("info", e ? static_cast<int>(e->code()) : -1, static_cast<int>(st), 0); }
std::string anyv(data::any const& a, executor::expr::evaluator_context const& ctx) {
    hist::quiet q;
    if (a.error()) {
        auto k = a.to<executor::expr::error>().kind();
        auto i = ctx.get_error_info();
        if (k == executor::expr::error_kind::error_info_provided) return A("info", i ? static_cast<int>(i->code()) : -1, i ? static_cast<int>(i->status()) : -1, static_cast<int>(ctx.errors().size()));
        return A("err", static_cast<int>(k), i ? 1 : 0, static_cast<int>(ctx.errors().size()));
    }
    auto one = [&](char const* k, lob::lob_reference const& r) {
        auto t = r.reference_tag();
        return A(k, static_cast<long>(r.object_id()), static_cast<int>(r.provider()) * 10 + static_cast<int>(r.kind()), t ? (*t == ~0ULL ? -2L : static_cast<long>(*t)) : -1L);
    };
    if (a.type_index() == data::any::index<lob::blob_reference>) return one("b", a.to<lob::blob_reference>());
    if (a.type_index() == data::any::index<lob::clob_reference>) return one("c", a.to<lob::clob_reference>());
    if (a.type_index() == data::any::index<std::int64_t>) return A("int", static_cast<long>(a.to<std::int64_t>()), 0, 0);
    return A("other", 0, 0, 0);
}
void out(world& w, hist::recorder& rec, int id, prog::op const& o, task& t) {
    std::string res{};
    {
        hist::quiet q;
        auto ch = std::make_shared<fake_channel>();
        executor::io::record_channel_adapter ad{ch};
        executor::io::channel_option opt{}; opt.transaction_id_ = t.t->surrogate_id();
        ad.option(opt);
        bool b = o[2] == "b";
        executor::io::data_channel_writer wr{ad, ch->w_, b ? w.bm : w.cm};
        alignas(8) char buf[128]{};
        accessor::record_ref r{buf, sizeof(buf)};
        if (b) r.set_value(0, lob::blob_reference{std::stoul(o[4]), static_cast<lob::lob_data_provider>(std::stoi(o[3]))});
        else r.set_value(0, lob::clob_reference{std::stoul(o[4]), static_cast<lob::lob_data_provider>(std::stoi(o[3]))});
        if (! wr.write(r)) res = A("refused", 0, 0, 0);
        else {
            takatori::util::buffer_view v{ch->w_->buf_.data(), ch->w_->buf_.size()};
            auto it = v.cbegin();
            serializer::read_row_begin(it, v.cend());
            auto ty = serializer::peek_type(it, v.cend());
            auto [p, i, g] = b ? serializer::read_blob(it, v.cend()) : serializer::read_clob(it, v.cend());
            (void) ty;
            res = A(b ? "b" : "c", static_cast<long>(p), static_cast<long>(i), static_cast<long>(g));
        }
    }
    (void) rec; (void) id;
    rec.ret(id, B(res));
}
void step(world& w, hist::recorder& rec, int id, prog::op const& o) {
    auto const& c = o[0];
    auto n = [&](std::size_t i) { return std::stoi(o[i]); };
    me = id; mytx = 0; mytask = 0;
    task* t{};
    if (c != "find" && c != "data" && c != "endtx" && c != "bad" && c != "fin") {
        hist::quiet q;
        mytask = n(1); auto it = w.tasks.find(mytask);
        if (it == w.tasks.end()) { return; }
        t = &it->second; mytx = t->tx;
    }
    auto session = [&]() -> fake_session* { return static_cast<fake_session*>(t->c().get()); };
    using prov = lob::lob_data_provider;
    auto with = [&](std::string const& kind, auto f) { // f(data::any, context)
        executor::expr::evaluator_context ctx{nullptr, t->t.get()};
        ctx.blob_session(std::addressof(t->c()));
        data::any r{};
        if (kind == "b") r = f(lob::blob_reference{}, ctx); else r = f(lob::clob_reference{}, ctx);
        return anyv(r, ctx);
    };
    if (c == "sess") { rec.call(id, c, n(1)); auto* s = t->c().get_or_create(); rec.ret(id, s ? static_cast<int>(s->session_id()) : 0); }
    else if (c == "get") { rec.call(id, c, n(1)); auto* s = t->c().get(); bool h = t->c().has_session(); bool b = static_cast<bool>(t->c()); rec.ret(id, s ? static_cast<int>(s->session_id()) : 0, h ? 1 : 0, b ? 1 : 0); }
    else if (c == "disp") { rec.call(id, c, n(1)); ev("dk", A(mytask)); t->c().dispose(); rec.ret(id, 0); }
    else if (c == "end") {
        rec.call(id, c, n(1)); ev("ek", A(mytask));
        task x{};
        { hist::quiet q; x = std::move(*t); w.tasks.erase(mytask); }
        x.wc.reset(); x.pc.reset(); x.t.reset();
        rec.ret(id, 0);
    }
    else if (c == "put") {
        rec.call(id, c, n(1), n(2)); int r{};
        { hist::quiet q; if (auto* s = session()) { s->objs_[n(2)] = "o" + o[2]; r = 1; } }
        rec.ret(id, r);
    }
    else if (c == "pre") {
        rec.call(id, c, n(1), o[2], n(3));
        auto r = with(o[2], [&](auto x, auto& ctx) { using X = decltype(x); return executor::expr::pre_process_if_lob(data::any{std::in_place_type<X>, X{static_cast<lob::lob_id_type>(n(3)), prov::datastore}}, ctx); });
        rec.ret(id, B(r));
    }
    else if (c == "prei" || c == "posti") { // not a large object
        rec.call(id, c, n(1), n(2));
        auto r = with("b", [&](auto, auto& ctx) { data::any a{std::in_place_type<std::int64_t>, n(2)}; return c == "prei" ? executor::expr::pre_process_if_lob(a, ctx) : executor::expr::post_process_if_lob(a, ctx); });
        rec.ret(id, B(r));
    }
    else if (c == "post") {
        long tag{}; int p = n(3); auto oid = n(4);
        { hist::quiet q; auto* s = session(); int sid = s ? s->id_ : 0; char k = o[5][0];
          long good = p == 1 ? static_cast<long>(dtag(t->tx, oid)) : static_cast<long>(stag(sid, oid));
          tag = k == 'g' ? good : k == 'o' ? good + 1 : k == 'n' ? -1 : k == 'x' ? (p == 1 ? static_cast<long>(stag(sid, oid)) : static_cast<long>(dtag(t->tx, oid))) : k == 'z' ? 0 : good ^ 1024; }
        rec.call(id, c, n(1), o[2], p, oid, tag);
        auto r = with(o[2], [&](auto x, auto& ctx) {
            using X = decltype(x); X v{static_cast<lob::lob_id_type>(oid), static_cast<prov>(p)};
            if (tag >= 0) v.reference_tag(static_cast<std::uint64_t>(tag));
            return executor::expr::post_process_if_lob(data::any{std::in_place_type<X>, v}, ctx); });
        rec.ret(id, B(r));
    }
    else if (c == "reg" || c == "regd" || c == "dup" || c == "res" || c == "und") {
        std::string arg = c == "und" ? "" : o[2]; int temp = c == "reg" ? n(3) : 0;
        rec.call(id, c, n(1), arg, temp);
        lob::lob_id_type out{7777}; std::shared_ptr<error::error_info> e{}; status st{};
        if (c == "reg") { lob::lob_locator loc{arg, temp != 0}; st = datastore::assign_lob_id(lob::lob_reference{loc}, t->t.get(), out, e); }
        else if (c == "regd") st = datastore::register_lob_data(arg, t->t.get(), out, e);
        else if (c == "dup") st = datastore::assign_lob_id(lob::lob_reference{static_cast<lob::lob_id_type>(std::stoul(arg))}, t->t.get(), out, e);
        else if (c == "res") st = datastore::assign_lob_id(lob::lob_reference{static_cast<lob::lob_id_type>(std::stoul(arg)), prov::datastore}, t->t.get(), out, e);
        else st = datastore::assign_lob_id(lob::lob_reference{}, t->t.get(), out, e);
        rec.ret(id, B(st == status::ok ? A("id", static_cast<long>(out), 0, 0) : err(e, st)));
    }
    else if (c == "find") {
        rec.call(id, c, n(1));
        std::string path{}; std::shared_ptr<error::error_info> e{};
        auto st = datastore::find_path_by_lob_id(n(1), path, e);
        rec.ret(id, B(st == status::ok ? A("path", path) : A("no", std::to_string(e ? static_cast<int>(e->code()) : -1))));
    }
    else if (c == "data") {
        rec.call(id, c, n(1));
        std::unique_ptr<tateyama::api::server::blob_info> info{}; std::shared_ptr<error::error_info> e{};
        auto st = datastore::get_lob_data(n(1), prov::datastore, e, info);
        if (st == status::ok) { hist::quiet q; std::string nm(info->channel_name()); ev("chan", A(nm.rfind("lob-", 0) == 0 && w.chans.insert(nm).second)); }
        rec.ret(id, B(st == status::ok ? A("path", info->path().string() + (info->is_temporary() ? "t" : "")) : A("no", std::to_string(e ? static_cast<int>(e->code()) : -1))));
    }
    else if (c == "out") { rec.call(id, c, n(1), o[2], n(3), n(4)); out(w, rec, id, o, *t); }
    else if (c == "endtx") {
        rec.call(id, c, n(1)); ev("et", A(n(1)));
        std::shared_ptr<transaction_context> x{};
        { hist::quiet q; auto it = w.txs.find(n(1)); if (it != w.txs.end()) { x = std::move(it->second); w.txs.erase(it); } }
        x.reset();
        rec.ret(id, 0);
    }
    else if (c == "bad") { { hist::quiet q; w.bad[id] = o[1][0]; } ev("bad", A(o[1])); }
    else if (c == "fin") { rec.call(id, c); rec.ret(id, 0); }
}
explore::scenario make(prog::program const& p, hist::recorder& rec) {
    explore::scenario sc;
    auto w = std::make_shared<world>();
    cur = w.get(); w->rec = &rec;
    std::string ts, names; bool relay = true, mock = false;
    for (auto const& s : p.init) { if (s[0] == 'R') relay = s[2] == '1'; if (s[0] == 'M') mock = s[2] == '1'; if (s[0] == 'T') ts = s.substr(2); }
    if (relay) w->relay = std::make_shared<fake_relay>(*w);
    w->store = std::make_shared<fake_store>(*w);
    w->cfg->udf_pass_mock_tag(mock);
    global::config_pool(w->cfg);
    w->db = std::make_shared<kvs::database>(nullptr);
    (void) datastore::get_datastore(true);
    auto mk = [](meta::field_type ft) { std::vector<meta::field_type> fs{std::move(ft)}; boost::dynamic_bitset<std::uint64_t> nul{1}; std::vector<std::size_t> off{0}, noff{48 * 8}; return std::make_shared<meta::record_meta>(std::move(fs), std::move(nul), std::move(off), std::move(noff), 8, 64); };
    w->bm = mk(meta::field_type(meta::field_enum_tag<meta::field_type_kind::blob>));
    w->cm = mk(meta::field_type(meta::field_enum_tag<meta::field_type_kind::clob>));
    int k = 0;
    std::string a;
    for (auto const& s : prog::split(ts, ',')) {
        task t{}; t.kind = s[0]; t.tx = std::stoi(s.substr(1));
        auto& x = w->txs[t.tx];
        if (! x) { x = std::make_shared<transaction_context>(nullptr, nullptr); w->name[static_cast<int>(x->surrogate_id())] = t.tx; }
        t.t = x;
        if (t.kind == 'w') t.wc = std::make_unique<executor::process::impl::work_context>(nullptr, 1, 1, nullptr, nullptr, w->db, x, false, false);
        else t.pc = std::make_unique<relay::blob_session_container>(x->surrogate_id());
        w->tasks[++k] = std::move(t);
        a += (a.empty() ? "" : ",") + s.substr(1);
    }
    rec.init(relay ? 1 : 0, mock ? 1 : 0, hist::val{"[" + a + "]"});
    sc.keep = [w] {};
    std::vector<prog::op> after{};
    for (std::size_t i = 0; i < p.threads.size(); ++i) {
        if (! p.threads[i].empty() && p.threads[i][0][0] == "after") { after = p.threads[i]; after.erase(after.begin()); continue; }
        sc.threads.emplace_back([w, i, &rec, ops = p.threads[i]] { for (auto const& o : ops) step(*w, rec, static_cast<int>(i), o); });
    }
    sc.finish = [w, &rec, after] {
        for (auto const& o : after) step(*w, rec, 98, o);
        std::vector<int> ts{}, xs{};
        for (auto& [k, v] : w->tasks) ts.push_back(k);
        for (auto& [k, v] : w->txs) xs.push_back(k);
        for (auto x : xs) step(*w, rec, 98, {"endtx", std::to_string(x)});
        for (auto k : ts) step(*w, rec, 98, {"end", std::to_string(k)});
        step(*w, rec, 98, {"fin"});
    };
    return sc;
}
}
int main(int argc, char** argv) { (void) argc; return prog::drive(make, std::strtoull(argv[1], nullptr, 10)); }
