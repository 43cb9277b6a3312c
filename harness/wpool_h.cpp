// Result-set writers: seats, their pool, tasks that need one, and the end of the request (C12).
// Programs: "K=<channel's limit or -> M=<configured limit> C=<channel 0|1> H=<result records 0|1> E=<emits 0|1> R=<nth writer refused or 0> P=<behaviours of tasks> : ops | ops | after ops"
//   behaviour: parts separated by '/' (the task yields between them) of w (write a record), f (the write fails), x (throws), n (nothing)
//   run | acq S | rel S | use S | mv S D | res S | has S | cap | fin
#define private public
#include <jogasaki/api/impl/database.h>
#include <jogasaki/executor/io/data_channel_writer.h>
#include <jogasaki/executor/process/impl/processor.h>
#include <jogasaki/executor/process/processor_info.h>
#undef private
#include "prog.h"
#include "globals_stub.h"
#include <jogasaki/api/data_channel.h>
#include <jogasaki/api/impl/request_context_factory.h>
#include <jogasaki/api/writer.h>
#include <jogasaki/executor/io/record_channel_adapter.h>
#include <jogasaki/executor/io/writer_pool.h>
#include <jogasaki/executor/io/writer_seat.h>
#include <jogasaki/executor/process/impl/process_executor.h>
#include <jogasaki/executor/process/impl/task_context.h>
#include <jogasaki/kvs/database.h>
#include <jogasaki/meta/external_record_meta.h>
#include <jogasaki/request_context.h>
#include <jogasaki/scheduler/flat_task.h>
#include <jogasaki/scheduler/job_context.h>
#include <jogasaki/scheduler/request_detail.h>
#include <jogasaki/scheduler/serial_task_scheduler.h>
#include <jogasaki/serializer/value_input.h>
#include <takatori/util/exception.h>
using namespace jogasaki;
namespace impl_ = jogasaki::executor::process::impl;
namespace {
struct world;
struct fake_writer : api::writer {
    fake_writer(world& w, int id) : w_(w), id_(id) {}
    status write(char const* data, std::size_t length) override;
    status commit() override;
    world& w_; int id_; std::string buf_{};
};
struct fake_channel : api::data_channel {
    explicit fake_channel(world& w) : w_(w) {}
    status acquire(std::shared_ptr<api::writer>& wrt) override;
    status release(api::writer& wrt) override;
    std::optional<std::size_t> max_writer_count() override { return limit_; }
    world& w_; std::optional<std::size_t> limit_{}; int refuse_{}; int made_{}; int asked_{};
};
struct world {
    hist::recorder* rec{};
    std::shared_ptr<api::impl::database> db{}; std::shared_ptr<configuration> cfg{};
    std::shared_ptr<fake_channel> fake{}; maybe_shared_ptr<executor::io::record_channel> ch{};
    std::shared_ptr<request_context> rc{}; std::shared_ptr<executor::process::abstract::process_executor> ex{};
    std::shared_ptr<meta::record_meta> meta{};
    std::vector<std::string> beh{}; std::vector<std::size_t> at{}; std::vector<int> recs{};
    std::map<void const*, int> ctxs{}; std::map<std::string, executor::io::writer_seat> seats{}; std::map<std::string, int> uses{};
    std::shared_ptr<impl_::processor> proc{};
    std::map<int, std::shared_ptr<fake_writer>> ws{};
    std::map<int, std::string> who{}; std::set<int> failing{}; std::map<int, bool> entered{};
    bool emits{true}; int progress{}, alive{}; char key{};
};
world* cur{};
thread_local int me{}; // index of the running thread (set at each operation)
void ev(char const* op, std::string const& a, std::string const& v = "[]") { hist::quiet q; cur->rec->seqraw(0, op, a, v); }
template <class... X> std::string A(X&&... a) { return hist::arr(std::forward<X>(a)...); }
status fake_writer::write(char const* data, std::size_t length) {
    coop::point();
    hist::quiet q;
    if (w_.failing.count(me)) return status::err_io_error;
    buf_.append(data, length);
    return status::ok;
}
status fake_writer::commit() {
    coop::point();
    hist::quiet q;
    std::string out{};
    takatori::util::buffer_view v{buf_.data(), buf_.size()};
    auto it = v.cbegin();
    while (it != v.cend()) {
        if (serializer::read_row_begin(it, v.cend()) != 1) break;
        out += (out.empty() ? "" : ",") + std::to_string(serializer::read_int(it, v.cend()));
    }
    buf_.clear();
    ev("cm", A(id_, hist::val{"[" + out + "]"}));
    return status::ok;
}
status fake_channel::acquire(std::shared_ptr<api::writer>& wrt) {
    coop::point();
    hist::quiet q;
    auto who = w_.who[me];
    if (++asked_ == refuse_) { ev("crf", A(who)); return status::err_resource_limit_reached; }
    auto p = std::make_shared<fake_writer>(w_, ++made_);
    w_.ws[made_] = p; wrt = p;
    ev("cr", A(who, made_));
    return status::ok;
}
status fake_channel::release(api::writer& wrt) {
    coop::point();
    ev("rl", A(static_cast<fake_writer&>(wrt).id_));
    return status::ok;
}
// writes record r with the writer of the seat; false when refused
bool use(world& w, executor::io::record_writer* wr, std::string const& who, int r, bool fails) {
    auto* dw = dynamic_cast<executor::io::data_channel_writer*>(wr);
    auto id = dw->writer_ ? static_cast<fake_writer*>(dw->writer_.get())->id_ : 0;
    ev("ub", A(who, id, r));
    bool ok{};
    std::int64_t rec[2] = {r, 0};
    { hist::quiet q; if (fails) w.failing.insert(me); }
    ok = wr->write(accessor::record_ref{rec, sizeof(rec)});
    { hist::quiet q; w.failing.erase(me); }
    ev("ue", A(who, id, r), A(ok));
    return ok;
}
}
// --- what the tasks do
namespace jogasaki::executor::process::impl {
processor::processor(std::shared_ptr<processor_info> info, std::shared_ptr<ops::io_info>, std::shared_ptr<relation_io_map>, io_exchange_map&, request_context*) : info_(std::move(info)) {}
std::shared_ptr<processor_info> const& processor::info() const noexcept { return info_; }
abstract::status processor::run(abstract::task_context* context) {
    auto& w = *cur;
    auto* ctx = dynamic_cast<impl::task_context*>(context);
    int k{}; std::string who{}, part{}; bool more{};
    { hist::quiet q; k = w.ctxs[context]; who = "c" + std::to_string(k); w.who[me] = who; w.entered[me] = true;
      auto& at = w.at[k]; auto e = w.beh[k].find('/', at); part = w.beh[k].substr(at, e == std::string::npos ? e : e - at); more = e != std::string::npos; at = more ? e + 1 : w.beh[k].size(); }
    ev("pb", A(me, who), A(ctx->writer_seat().reserved()));
    for (char b : part) {
        if (b == 'n') { coop::point(); continue; }
        if (b == 'x') { ev("pe", A(me, who, "x")); throw std::runtime_error("task"); }
        executor::io::record_writer* wr{};
        try { wr = ctx->external_writer(); } catch (...) { ev("pe", A(me, who, "x")); throw; }
        if (! use(w, wr, who, 100 * (k + 1) + ++w.recs[k], b == 'f')) { ev("pe", A(me, who, "e")); return abstract::status::completed_with_errors; }
    }
    ev("pe", A(me, who, more ? "y" : "o"));
    return more ? abstract::status::to_yield : abstract::status::completed;
}
}
namespace jogasaki::executor::process {
processor_details::processor_details(bool a, bool b, bool c, bool d, bool e, write_kind f, bool g) : has_scan_operator_(a), has_emit_operator_(b), has_find_operator_(c), has_join_find_or_scan_operator_(d), has_write_operations_(e), write_kind_(f), has_values_operator_(g) {}
bool processor_details::has_emit_operator() const noexcept { return has_emit_operator_; }
processor_details const& processor_info::details() const noexcept { return details_; }
}
// --- stand-ins
namespace jogasaki::utils { [[noreturn]] void fail_with_exception_impl(std::string_view, std::string_view, std::string_view) { throw std::logic_error("fail_with_exception"); } }
namespace jogasaki::global {
std::shared_ptr<storage::storage_manager> const& storage_manager(std::shared_ptr<storage::storage_manager>) { static std::shared_ptr<storage::storage_manager> p{}; return p; }
std::shared_ptr<yugawara::function::configurable_provider> const& regular_function_provider(std::shared_ptr<yugawara::function::configurable_provider>) { static std::shared_ptr<yugawara::function::configurable_provider> p{}; return p; }
}
namespace jogasaki::api::impl {
database::database(std::shared_ptr<class configuration> cfg) : cfg_(std::move(cfg)) {}
status database::start() { return status::ok; }
status database::destroy_transaction(api::transaction_handle) { return status::ok; }
std::shared_ptr<class configuration> const& database::configuration() const noexcept { return cfg_; }
std::shared_ptr<class configuration>& database::config() noexcept { return cfg_; }
std::shared_ptr<kvs::database> const& database::kvs_db() const noexcept { return kvs_db_; }
std::shared_ptr<yugawara::storage::configurable_provider> const& database::tables() const noexcept { return tables_; }
scheduler::task_scheduler* database::task_scheduler() const noexcept { return task_scheduler_.get(); }
std::shared_ptr<scheduler::task_scheduler> const& database::scheduler() const noexcept { return task_scheduler_; }
executor::sequence::manager* database::sequence_manager() const noexcept { return nullptr; }
}
namespace {
void moved(world& w) { hist::quiet q; ++w.progress; coop::wake_all(&w.key); }
void step(world& w, hist::recorder& rec, int id, prog::op const& o) {
    auto const& c = o[0];
    me = id;
    if (c == "run") {
        for (;;) {
            int seen{}; { hist::quiet q; seen = w.progress; w.entered[id] = false; }
            rec.call(id, "run");
            std::string r{"o"};
            try {
                using st = executor::process::abstract::status;
                auto s = w.ex->run();
                r = s == st::completed ? "o" : s == st::completed_with_errors ? "e" : s == st::to_yield ? (w.entered[id] ? "y" : "full") : "sleep";
            } catch (std::exception const&) { r = "x"; }
            rec.ret(id, r);
            if (r != "full") moved(w);
            if (r == "o" || r == "e" || r == "x") break;
            if (r == "full") { while (w.progress == seen && w.alive > 1) { --w.alive; coop::block(&w.key, false); ++w.alive; } if (w.progress == seen) break; }
            else coop::point(coop::pk::yield);
        }
        return;
    }
    auto* pool = w.rc->writer_pool().get();
    auto seat = [&](std::size_t i) -> executor::io::writer_seat& { hist::quiet q; return w.seats[o[i]]; };
    if (c == "acq") { rec.call(id, c, o[1]); auto& s = seat(1); bool ok = pool->acquire(s); rec.ret(id, ok ? "1" : "0"); }
    else if (c == "rel") { if (! seat(1).reserved()) return; rec.call(id, c, o[1]); pool->release(std::move(seat(1))); rec.ret(id, "1"); moved(w); }
    else if (c == "use") {
        if (! seat(1).reserved()) return;
        int n = ++w.uses[o[1]];
        rec.call(id, c, o[1]); { hist::quiet q; w.who[id] = o[1]; }
        std::string r{"1"};
        try { auto const& wr = seat(1).writer(); r = use(w, wr.get(), o[1], 1000 * (o[1][0] - 'a' + 1) + n, false) ? "1" : "0"; } catch (std::exception const&) { r = "x"; }
        rec.ret(id, r);
    } else if (c == "mv") { rec.call(id, c, o[1], o[2]); auto &s = seat(1), &d = seat(2); d = std::move(s); rec.ret(id, "1"); }
    else if (c == "mk") { rec.call(id, "mv", o[1], o[1]); auto& s = seat(1); executor::io::writer_seat t{std::move(s)}; bool bad = s.reserved() || s.has_writer(); s = std::move(t); bad = bad || t.reserved() || t.has_writer(); rec.ret(id, bad ? "?" : "1"); }
    else if (c == "res") { rec.call(id, c, o[1]); bool b = seat(1).reserved(); rec.ret(id, b ? "1" : "0"); }
    else if (c == "has") { rec.call(id, c, o[1]); bool b = seat(1).has_writer(); rec.ret(id, b ? "1" : "0"); }
    else if (c == "cap") { rec.call(id, c); auto s = pool ? std::to_string(pool->capacity()) : std::string{"none"}; rec.ret(id, s); }
    else if (c == "fin") { rec.call(id, c); scheduler::finish_job(*w.rc); rec.ret(id, "1"); }
}
explore::scenario make(prog::program const& p, hist::recorder& rec) {
    explore::scenario sc;
    auto w = std::make_shared<world>(); cur = w.get(); w->rec = &rec;
    std::map<std::string, std::string> f{};
    for (auto const& s : p.init) { auto e = s.find('='); f[s.substr(0, e)] = s.substr(e + 1); }
    w->cfg = std::make_shared<configuration>();
    w->cfg->max_result_set_writers(std::stoul(f["M"]));
    w->db = std::make_shared<api::impl::database>(w->cfg);
    w->db->task_scheduler_ = std::make_shared<scheduler::serial_task_scheduler>();
    w->emits = f["E"] == "1";
    w->fake = std::make_shared<fake_channel>(*w);
    if (f["K"] != "-") w->fake->limit_ = std::stoul(f["K"]);
    w->fake->refuse_ = std::stoi(f["R"]);
    w->meta = std::make_shared<meta::record_meta>(std::vector<meta::field_type>{meta::field_type{meta::field_enum_tag<meta::field_type_kind::int8>}}, boost::dynamic_bitset<std::uint64_t>{1, 0}, std::vector<std::size_t>{0}, std::vector<std::size_t>{64}, 8, 16);
    auto ch = std::make_shared<executor::io::record_channel_adapter>(maybe_shared_ptr<api::data_channel>{std::static_pointer_cast<api::data_channel>(w->fake)});
    (void) ch->meta(maybe_shared_ptr<meta::external_record_meta>{std::make_shared<meta::external_record_meta>(maybe_shared_ptr<meta::record_meta>{w->meta}, std::vector<std::optional<std::string>>{std::string{"c"}})});
    if (f["C"] == "1") w->ch = maybe_shared_ptr<executor::io::record_channel>{std::static_pointer_cast<executor::io::record_channel>(ch)};
    w->rc = api::impl::create_request_context(*w->db, nullptr, w->ch, nullptr, request_info{}, f["H"] == "1", std::make_shared<scheduler::request_detail>(scheduler::request_detail_kind::unknown));
    w->rc->job()->callback([] { coop::point(); ev("cb", A()); });
    w->beh = prog::split(f["P"], ',');
    if (f["P"] == "-") w->beh.clear();
    w->at.resize(w->beh.size()); w->recs.resize(w->beh.size());
    auto info = std::make_shared<executor::process::processor_info>();
    info->details_ = executor::process::processor_details{false, w->emits, false, false, false, executor::process::write_kind{}, false};
    static executor::process::io_exchange_map none{};
    w->proc = std::make_shared<impl_::processor>(info, nullptr, nullptr, none, w->rc.get());
    std::vector<std::shared_ptr<executor::process::abstract::task_context>> cs{};
    for (std::size_t k = 0; k < w->beh.size(); ++k) {
        cs.emplace_back(std::make_shared<impl_::task_context>(*w->rc, k, none, nullptr, w->ch.get(), std::vector<std::size_t>{}));
        w->ctxs[cs.back().get()] = static_cast<int>(k);
    }
    w->ex = impl_::default_process_executor_factory()(w->proc, cs);
    rec.init(f["K"] == "-" ? -1 : std::stoi(f["K"]), std::stoi(f["M"]), f["C"] == "1" && f["H"] == "1", w->emits, static_cast<int>(w->beh.size()));
    sc.keep = [w] {};
    std::size_t n = 0;
    for (auto const& t : p.threads) if (! t.empty() && t[0][0] != "after") ++n;
    w->alive = static_cast<int>(n);
    for (std::size_t t = 0; t < p.threads.size(); ++t) {
        if (! p.threads[t].empty() && p.threads[t][0][0] == "after") continue;
        sc.threads.emplace_back([w, t, &rec, ops = p.threads[t]] { for (auto const& o : ops) step(*w, rec, static_cast<int>(t), o); --w->alive; moved(*w); });
    }
    sc.finish = [w, &rec, p] {
        for (auto const& t : p.threads) if (! t.empty() && t[0][0] == "after") for (std::size_t i = 1; i < t.size(); ++i) step(*w, rec, 9, t[i]);
        for (auto& [k, s] : w->seats) if (s.reserved()) rec.seqraw(0, "left", A(k), A(1));
        if (w->ch) rec.seqraw(0, "tot", A(), A(static_cast<int>(w->ch->statistics().total_record_count())));
    };
    return sc;
}
}
int main(int argc, char** argv) { (void) argc; return prog::drive(make, std::strtoull(argv[1], nullptr, 10)); }
