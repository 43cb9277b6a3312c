// Transactions, jobs, tasks and query steps run by the real scheduler code on worker threads under control (C01, C03, C04, C05).
// Programs: "W=<workers> C=<configuration letters> T<n>=<engine's answer> D=<announced markers> : ops | ops"
//   engine's answer: ok<marker> or err, "s" in front: given inside the commit call
//   dag T J <shape> <cap> <behaviours> | write T J <behaviour> | custom T J <cap> <behaviour> | prep T J <kind> | commit T J a|s | abort T | wait J | state T | marker | dur M | xlock | xunlock
//   shape: steps separated by "," each "<tasks>[<<main upstreams joined by +>][^<sub upstreams joined by +>]"; behaviours: "-" or "<y|e|x><step>.<task>" joined by ","
#define private public
#include <jogasaki/api/impl/database.h>
#undef private
#include "prog.h"
#include "globals_stub.h"
#include <jogasaki/api/commit_option.h>
#include <jogasaki/api/impl/request_context_factory.h>
#include <jogasaki/commit_context.h>
#include <jogasaki/error/error_info_factory.h>
#include <jogasaki/executor/common/execute.h>
#include <jogasaki/executor/common/graph.h>
#include <jogasaki/executor/common/step.h>
#include <jogasaki/executor/common/task.h>
#include <jogasaki/executor/common/utils.h>
#include <jogasaki/executor/common/write_statement.h>
#include <jogasaki/executor/executor.h>
#include <jogasaki/kvs/database.h>
#include <jogasaki/kvs/transaction.h>
#include <jogasaki/plan/executable_statement.h>
#include <jogasaki/plan/mirror_container.h>
#include <jogasaki/plan/prepared_statement.h>
#include <jogasaki/request_context.h>
#include <jogasaki/scheduler/dag_controller.h>
#include <jogasaki/scheduler/flat_task.h>
#include <jogasaki/scheduler/hybrid_task_scheduler.h>
#include <jogasaki/scheduler/request_detail.h>
#include <jogasaki/scheduler/statement_scheduler.h>
#include <jogasaki/scheduler/stealing_task_scheduler.h>
#include <jogasaki/scheduler/task_factory.h>
#include <jogasaki/scheduler/thread_local_info.h>
#include <jogasaki/storage/storage_manager.h>
#include <jogasaki/transaction_context.h>
#include <takatori/statement/statement_kind.h>
using namespace jogasaki;
namespace {
using sched_type = tateyama::task_scheduler::scheduler<scheduler::flat_task, scheduler::conditional_task>;
void const* wake_key() { return tateyama::task_scheduler::verif_wake_key(); }
struct engine_plan { bool ok{true}; int marker{1}; bool inside{false}; };
struct job { int id{}; int tx{}; std::string sync{}; std::map<std::string, char> beh{}; std::set<std::string> done{}; std::string shape{}; std::string cap{}; std::string kind{}; };
struct world {
    hist::recorder* rec{};
    std::shared_ptr<configuration> cfg{};
    std::shared_ptr<api::impl::database> db{};
    std::shared_ptr<storage::storage_manager> sm{std::make_shared<storage::storage_manager>()};
    sched_type* sched{};
    std::map<int, std::shared_ptr<transaction_context>> txs{};
    std::map<kvs::transaction const*, int> ids{};
    std::map<int, engine_plan> plans{};
    std::map<int, std::string> names{};
    std::deque<std::pair<int, kvs::transaction::commit_callback_type>> pending{};
    std::deque<int> durations{};
    int last_marker{0}; bool announced{false};
    std::map<int, std::size_t> jobids{};
    std::map<void const*, std::shared_ptr<job>> writes{};
    std::map<void const*, std::shared_ptr<job>> prepared{};
    std::unique_ptr<storage::unique_lock> xlock{};
    int busy{0}, stage{0}, need{0}, daemons{0}; bool stop{false}; std::uint64_t progress{0};
};
world* cur{};
void ev(char const* op, std::string const& a, std::string const& v = "[]") { hist::quiet q; ++cur->progress; cur->rec->seqraw(0, op, a, v); }
template <class... X> std::string A(X&&... a) { return hist::arr(std::forward<X>(a)...); }
using takatori::util::sequence_view;

// --- behaviour of a task: what it does when it runs
enum class did { complete, yield, fail };
template <class Fail> did body(job& j, int s, int k, Fail fail) {
    auto key = std::to_string(s) + "." + std::to_string(k);
    ev("tb", A(j.id, s, k));
    coop::point();
    char b = 'o';
    { hist::quiet q; auto it = j.beh.find(key); if (it != j.beh.end() && (it->second != 'y' || j.done.insert(key).second)) b = it->second; }
    if (b == 'e' || b == 'x') { ev("fl", A(j.id)); hist::quiet q; cur->plans[j.tx].ok = false; }
    if (b == 'e') fail();
    ev("te", A(j.id, s, k), A(std::string(1, b)));
    if (b == 'x') throw std::runtime_error("task");
    return b == 'y' ? did::yield : b == 'e' ? did::fail : did::complete;
}
model::task_transaction_kind cap_of(std::string const& c) { return c == "s" ? model::task_transaction_kind::sticky : c == "i" ? model::task_transaction_kind::in_transaction : model::task_transaction_kind::none; }
void set_failed(request_context& rctx) { set_error_context(rctx, error_code::value_evaluation_exception, "failed", status::err_expression_evaluation_failure); }

class mock_step;
class mock_task : public executor::common::task {
public:
    mock_task(request_context* c, executor::common::step* s, std::shared_ptr<job> j, int k) : task(c, s), j_(std::move(j)), k_(k) {}
    model::task_result operator()() override {
        auto r = body(*j_, static_cast<int>(step()->id()), k_, [&] { set_failed(*context()); });
        if (r != did::yield) executor::common::send_event(*context(), event_enum_tag<event_kind::task_completed>, step()->id(), id());
        if (global::config_pool()->inplace_dag_schedule()) scheduler::dag_schedule(*context());
        else context()->scheduler()->schedule_task(scheduler::flat_task{scheduler::task_enum_tag<scheduler::flat_task_kind::dag_events>, context()});
        return r == did::yield ? model::task_result::yield : model::task_result::complete;
    }
    model::task_transaction_kind transaction_capability() override { return cap_of(j_->cap); }
private:
    std::shared_ptr<job> j_; int k_;
};
class mock_step : public executor::common::step {
public:
    mock_step(std::shared_ptr<job> j, int n) : j_(std::move(j)), n_(n) {}
    [[nodiscard]] model::step_kind kind() const noexcept override { return model::step_kind::process; }
    void activate(request_context&) override { ev("act", A(j_->id, static_cast<int>(id()))); }
    void deactivate(request_context&) override { ev("de", A(j_->id, static_cast<int>(id()))); }
    void notify_completed(request_context&) override {}
    [[nodiscard]] sequence_view<std::shared_ptr<model::task>> create_tasks(request_context& rctx) override {
        hist::quiet q; ev("ct", A(j_->id, static_cast<int>(id()))); tasks_.clear();
        for (int k = 0; k < n_; ++k) tasks_.emplace_back(std::make_shared<mock_task>(&rctx, this, j_, k));
        return tasks_;
    }
    [[nodiscard]] sequence_view<std::shared_ptr<model::task>> create_pretask(request_context& rctx, port_index i) override {
        hist::quiet q; ev("cp", A(j_->id, static_cast<int>(id()), static_cast<int>(i))); pre_.emplace_back();
        pre_.back().emplace_back(std::make_shared<mock_task>(&rctx, this, j_, 100 + static_cast<int>(i)));
        return pre_.back();
    }
private:
    std::shared_ptr<job> j_; int n_; std::vector<std::shared_ptr<model::task>> tasks_{}; std::deque<std::vector<std::shared_ptr<model::task>>> pre_{};
};
class mock_statement : public takatori::statement::statement {
public:
    explicit mock_statement(takatori::statement::statement_kind k) : k_(k) {}
    [[nodiscard]] takatori::statement::statement_kind kind() const noexcept override { return k_; }
private:
    takatori::statement::statement_kind k_;
};
}
// --- stand-ins for what lies below and beside
namespace jogasaki::kvs {
transaction::~transaction() noexcept = default;
bool transaction::commit(commit_callback_type cb) {
    int t{}; engine_plan p{};
    { hist::quiet q; t = cur->ids[this]; p = cur->plans[t]; }
    ev("cc", A(t));
    if (p.inside) {
        ev("eng", A(t, p.ok, p.marker));
        cb(p.ok ? sharksfin::StatusCode::OK : sharksfin::StatusCode::ERR_ABORTED_RETRYABLE, {}, static_cast<sharksfin::durability_marker_type>(p.marker));
        return true;
    }
    { hist::quiet q; cur->pending.emplace_back(t, std::move(cb)); }
    coop::wake_all(wake_key());
    return false;
}
status transaction::abort_transaction() {
    int t{}; { hist::quiet q; t = cur->ids[this]; }
    ev("ca", A(t));
    return status::ok;
}
std::string_view transaction::transaction_id() const noexcept { hist::quiet q; return cur->names[cur->ids[this]]; }
sharksfin::TransactionControlHandle transaction::control_handle() const noexcept { return {}; }
sharksfin::TransactionHandle transaction::handle() { return {}; }
sharksfin::TransactionState transaction::check_state() { return {}; }
database* transaction::database() const noexcept { return nullptr; }
std::shared_ptr<sharksfin::CallResult> transaction::recent_call_result() noexcept { return {}; }
status transaction::commit(bool) { return status::ok; }
}
namespace jogasaki::external_log { void tx_end(request_info const&, std::string_view, std::string_view, std::int64_t, std::int64_t, std::int64_t, std::string_view) {} }
namespace jogasaki::utils {
std::string create_abort_message(request_context const&) { return "aborted"; }
void print_error(request_context&, std::string_view) {}
[[noreturn]] void fail_with_exception_impl(std::string_view, std::string_view, std::string_view) { throw std::logic_error("fail_with_exception"); }
}
namespace jogasaki::executor::common {
model::statement_kind write_statement::kind() const noexcept { return model::statement_kind::write; }
bool write_statement::operator()(request_context& rctx) {
    std::shared_ptr<job> j{}; { hist::quiet q; j = cur->writes[this]; }
    return body(*j, 0, 0, [&] { set_failed(rctx); }) == did::complete;
}
}
namespace jogasaki::global {
std::shared_ptr<storage::storage_manager> const& storage_manager(std::shared_ptr<storage::storage_manager>) { return cur->sm; }
std::shared_ptr<kvs::database> const& db(std::shared_ptr<kvs::database>) { static std::shared_ptr<kvs::database> d{}; return d; }
std::shared_ptr<yugawara::function::configurable_provider> const& regular_function_provider(std::shared_ptr<yugawara::function::configurable_provider>) { static std::shared_ptr<yugawara::function::configurable_provider> p{}; return p; }
std::shared_ptr<api::impl::database> const& database_impl(std::shared_ptr<api::impl::database>) { return cur->db; }
}
namespace jogasaki::api::impl {
database::database(std::shared_ptr<class configuration> cfg) : cfg_(std::move(cfg)) {}
status database::start() { return status::ok; }
status database::destroy_transaction(api::transaction_handle) { return status::ok; }
std::shared_ptr<class configuration> const& database::configuration() const noexcept { return cfg_; }
std::shared_ptr<class configuration>& database::config() noexcept { return cfg_; }
std::shared_ptr<kvs::database> const& database::kvs_db() const noexcept { return kvs_db_; }
std::shared_ptr<yugawara::storage::configurable_provider> const& database::tables() const noexcept { return tables_; }
scheduler::task_scheduler* database::task_scheduler() const noexcept { return task_scheduler_.get(); }
std::shared_ptr<scheduler::task_scheduler> const& database::scheduler() const noexcept { return task_scheduler_; }
executor::sequence::manager* database::sequence_manager() const noexcept { return nullptr; }
bool database::stop_requested() const noexcept { return false; }
utils::use_counter const& database::requests_inprocess() const noexcept { return requests_inprocess_; }
std::shared_ptr<durability_manager> const& database::durable_manager() const noexcept { return durability_manager_; }
}
namespace {
std::unique_ptr<api::impl::executable_statement> make_stmt(world& w, std::shared_ptr<job> const& j) {
    hist::quiet q;
    using sk = takatori::statement::statement_kind;
    maybe_shared_ptr<model::statement> ops{};
    sk kind = sk::write;
    if (j->kind == "dag") {
        kind = sk::execute;
        auto g = std::make_shared<executor::common::graph>();
        auto steps = prog::split(j->shape, ',');
        std::vector<mock_step*> st; std::vector<std::string> rest;
        for (auto const& s : steps) { auto e = s.find_first_of("<^"); st.push_back(&g->emplace<mock_step>(j, std::stoi(s.substr(0, e)))); rest.push_back(e == std::string::npos ? "" : s.substr(e)); }
        for (std::size_t i = 0; i < st.size(); ++i) {
            auto& r = rest[i]; auto c = r.find('^');
            auto main = r.empty() || r[0] != '<' ? std::string{} : r.substr(1, c == std::string::npos ? std::string::npos : c - 1);
            auto sub = c == std::string::npos ? std::string{} : r.substr(c + 1);
            for (auto const& u : prog::split(main, '+')) st[std::stoul(u)]->connect_to(*st[i]);
            for (auto const& u : prog::split(sub, '+')) st[std::stoul(u)]->connect_to_sub(*st[i]);
        }
        ops = maybe_shared_ptr<model::statement>{std::make_shared<executor::common::execute>(g)};
    } else if (j->kind == "write") {
        auto ws = std::make_shared<executor::common::write_statement>();
        w.writes[ws.get()] = j;
        ops = maybe_shared_ptr<model::statement>{std::static_pointer_cast<model::statement>(ws)};
    } else { // empty
        kind = sk::empty;
        class nothing : public model::statement { public: [[nodiscard]] model::statement_kind kind() const noexcept override { return model::statement_kind::empty; } };
        ops = maybe_shared_ptr<model::statement>{std::static_pointer_cast<model::statement>(std::make_shared<nothing>())};
    }
    auto m = std::make_shared<plan::mirror_container>();
    m->mutable_storage_operation() = storage::storage_operation{storage::storage_list{{1}}, {auth::action_set{}}};
    auto b = std::make_shared<plan::executable_statement>(maybe_shared_ptr<takatori::statement::statement>{std::make_shared<mock_statement>(kind)}, yugawara::compiled_info{}, std::move(ops), nullptr, nullptr, m, std::make_shared<std::string>("sql"));
    return std::make_unique<api::impl::executable_statement>(std::move(b), std::make_shared<memory::lifo_paged_memory_resource>(&global::page_pool()), nullptr);
}
std::string steps_json(std::string const& shape) {
    std::string r = "[";
    auto list = [](std::string const& s) { std::string o = "["; for (auto const& u : prog::split(s, '+')) o += (o.size() > 1 ? "," : "") + u; return o + "]"; };
    for (auto const& s : prog::split(shape, ',')) {
        auto e = s.find_first_of("<^"); auto rest = e == std::string::npos ? std::string{} : s.substr(e); auto c = rest.find('^');
        auto main = rest.empty() || rest[0] != '<' ? std::string{} : rest.substr(1, c == std::string::npos ? std::string::npos : c - 1);
        r += (r.size() > 1 ? "," : "") + ("[" + s.substr(0, e) + "," + list(main) + "," + list(c == std::string::npos ? "" : rest.substr(c + 1)) + "]");
    }
    return r + "]";
}
}
namespace jogasaki::api::impl {
status database::resolve_common(impl::prepared_statement const& stmt, maybe_shared_ptr<api::parameter_set const>, std::unique_ptr<api::executable_statement>& out, std::shared_ptr<error::error_info>& err) {
    std::shared_ptr<job> j{}; { hist::quiet q; j = cur->prepared[&stmt]; }
    if (j->cap == "fail") { ev("fl", A(j->id)); { hist::quiet q; cur->plans[j->tx].ok = false; } err = create_error_info(error_code::unresolved_placeholder_exception, "unresolved", status::err_unresolved_host_variable); return status::err_unresolved_host_variable; }
    out = make_stmt(*cur, j);
    return status::ok;
}
}
namespace {
std::string code(status s) {
    switch (s) {
        case status::ok: return "ok";
        case status::err_inactive_transaction: return "inactive";
        case status::err_illegal_operation: return "illegal";
        case status::err_expression_evaluation_failure: return "eval";
        case status::err_unknown: return "unknown";
        case status::err_serialization_failure: return "conflict";
        case status::err_unresolved_host_variable: return "unresolved";
        default: return "other" + std::to_string(static_cast<int>(s));
    }
}
std::map<std::string, char> behaviours(std::string const& s) {
    std::map<std::string, char> r;
    if (s != "-") for (auto const& b : prog::split(s, ',')) r[b.substr(1)] = b[0];
    return r;
}
void step(world& w, hist::recorder& rec, int id, prog::op const& o) {
    auto const& c = o[0];
    auto n = [&](std::size_t i) { return std::stoi(o[i]); };
    auto at = [&](std::size_t i) { return i < o.size() ? o[i] : std::string{}; };
    auto on_done = [&w](int jid) { return [&w, jid](status st, std::shared_ptr<error::error_info> e, std::shared_ptr<request_statistics>) { (void) w; ev("done", A(jid), A(code(st), st == status::ok || static_cast<bool>(e))); }; };
    if (c == "dag" || c == "write" || c == "prep" || c == "empty") {
        int T = n(1), J = n(2);
        auto j = std::make_shared<job>(); j->id = J; j->tx = T;
        auto tx = w.txs[T];
        if (c == "dag") { j->kind = "dag"; j->shape = o[3]; j->cap = o[4]; j->beh = behaviours(o[5]); }
        else if (c == "write") { j->kind = "write"; j->shape = "1"; j->cap = "s"; j->beh = behaviours(o[3]); }
        else if (c == "empty") { j->kind = "empty"; j->shape = ""; j->cap = "n"; }
        else { j->kind = o[3] == "empty" ? "empty" : "write"; j->cap = o[3] == "fail" ? "fail" : "s"; j->shape = o[3] == "empty" || o[3] == "fail" ? "" : "1"; if (o.size() > 4) j->beh = behaviours(o[4]); }
        bool sync = o.back() == "sync";
        rec.call(id, "exec", T, J, hist::val{steps_json(j->shape)}, j->cap == "s" ? 2 : j->cap == "i" ? 1 : 0, j->cap == "fail" ? "fail" : j->kind, c == "prep" ? 1 : 0, sync ? 1 : 0);
        ++w.progress;
        if (c == "prep") {
            std::shared_ptr<api::impl::prepared_statement> ps{};
            { hist::quiet q; auto m = std::make_shared<plan::mirror_container>(); ps = std::make_shared<api::impl::prepared_statement>(std::make_shared<plan::prepared_statement>(maybe_shared_ptr<takatori::statement::statement>{}, yugawara::compiled_info{}, nullptr, m, "sql")); w.prepared[ps.get()] = j; }
            (void) executor::execute_async(*w.db, tx, ps, nullptr, maybe_shared_ptr<executor::io::record_channel>{}, on_done(J), sync, request_info{});
        } else {
            auto s = std::shared_ptr<api::executable_statement>(make_stmt(w, j));
            (void) executor::execute_async(*w.db, tx, maybe_shared_ptr<api::executable_statement>{s}, maybe_shared_ptr<api::data_channel>{}, on_done(J), request_info{}, sync);
        }
        rec.ret(id, sync ? 1 : 0);
    } else if (c == "custom") { // an internal job with one task
        int T = n(1), J = n(2);
        auto j = std::make_shared<job>(); j->id = J; j->tx = T; j->kind = "custom"; j->cap = o[3]; j->beh = behaviours(at(4));
        rec.call(id, "exec", T, J, hist::val{"[[1,[],[]]]"}, j->cap == "s" ? 2 : j->cap == "i" ? 1 : 0, "custom", 0, 0);
        ++w.progress;
        auto rctx = api::impl::create_request_context(*w.db, T ? w.txs[T] : nullptr, nullptr, nullptr, request_info{}, false, std::make_shared<scheduler::request_detail>(scheduler::request_detail_kind::unknown));
        rctx->job()->callback([rctx, J] { ev("done", A(J), A(code(rctx->status_code()), true)); });
        w.jobids[J] = rctx->job()->id();
        rctx->scheduler()->schedule_task(scheduler::create_custom_task(rctx.get(), [r = rctx.get(), j] {
            if (body(*j, 0, 0, [&] { set_failed(*r); }) == did::yield) return model::task_result::yield;
            scheduler::submit_teardown(*r);
            return model::task_result::complete;
        }, cap_of(j->cap)));
        rec.ret(id, 0);
    } else if (c == "commit") {
        int T = n(1), J = n(2);
        commit_response_kind_set ks{};
        auto kind = o[3] == "s" ? commit_response_kind::stored : commit_response_kind::accepted;
        ks.insert(kind);
        rec.call(id, "commit", T, J, o[3]);
        ++w.progress;
        auto jobid = executor::commit_async(*w.db, w.txs[T],
            [&w, J, T](commit_response_kind k) { ev("ans", A(J), A(k == commit_response_kind::stored ? "s" : "a", "ok")); (void) w; (void) T; }, ks,
            [J](commit_response_kind, status st, std::shared_ptr<error::error_info> e) { ev("ans", A(J), A(e ? "e" : "?", code(st))); },
            api::commit_option{false, kind}, request_info{});
        w.jobids[J] = jobid;
        rec.ret(id, 0);
    } else if (c == "abort") {
        rec.call(id, "abort", n(1)); ++w.progress;
        executor::abort_transaction(w.txs[n(1)], request_info{});
        rec.ret(id, 0);
    } else if (c == "wait") {
        if (! w.jobids.count(n(1))) return;
        rec.call(id, "wait", n(1));
        w.db->task_scheduler()->wait_for_progress(w.jobids[n(1)]);
        rec.ret(id, 0);
    } else if (c == "state") { rec.call(id, "state", n(1)); auto s = w.txs[n(1)]->state(); rec.ret(id, static_cast<int>(s)); }
    else if (c == "marker") { rec.call(id, "marker"); auto m = w.db->durable_manager()->current_marker(); rec.ret(id, static_cast<int>(m)); }
    else if (c == "dur") { rec.call(id, "dur", n(1)); ++w.progress; durability_callback cb{*w.db}; cb(static_cast<durability_callback::marker_type>(n(1))); rec.ret(id, 0); }
    else if (c == "xlock") {
        if (! w.xlock) { hist::quiet q; w.xlock = w.sm->create_unique_lock(); }
        rec.call(id, "xlock"); storage::storage_list l{{1}}; bool r = w.sm->add_locked_storages(l, *w.xlock); rec.ret(id, r ? 1 : 0);
    } else if (c == "xunlock") {
        rec.call(id, "xunlock"); w.xlock.reset(); rec.ret(id, 0);
    }
}
// --- daemons: they sleep until there is work; when nobody is busy the next stage begins
void leave(world& w) { // somebody has nothing to do any more
    if (--w.busy > 0 || w.need > 0 || ! w.sched->idle() || ! w.pending.empty() || ! w.durations.empty()) return;
    if (++w.stage >= 2) w.stop = true;
    w.need = w.daemons; // everybody looks again before the next stage
    coop::wake_all(wake_key());
}
void park(world& w, int& last) {
    if (last != w.stage) { last = w.stage; --w.need; }
    auto s = w.stage;
    leave(w);
    if (s == w.stage) coop::block(wake_key(), false);
    ++w.busy;
}
void worker(world& w, std::size_t i) {
    scheduler::thread_local_info_ = {};
    w.sched->init_worker(i);
    int last{-1};
    while (! w.stop) {
        if (! w.sched->runnable(i)) { park(w, last); continue; }
        auto before = w.progress;
        w.sched->step(i);
        if (before == w.progress) coop::point(coop::pk::yield);
    }
    scheduler::thread_local_info_ = {};
}
void engine(world& w) {
    scheduler::thread_local_info_ = {};
    int last{-1};
    while (! w.stop) {
        if (w.pending.empty()) { park(w, last); continue; }
        coop::point();
        auto p = [&] { hist::quiet q; auto r = std::move(w.pending.front()); w.pending.pop_front(); return r; }();
        auto& plan = w.plans[p.first];
        ev("eng", A(p.first, plan.ok, plan.marker));
        p.second(plan.ok ? sharksfin::StatusCode::OK : sharksfin::StatusCode::ERR_ABORTED_RETRYABLE, {}, static_cast<sharksfin::durability_marker_type>(plan.marker));
    }
}
void durability(world& w) {
    scheduler::thread_local_info_ = {};
    int last{-1};
    while (! w.stop) {
        int m{};
        if (! w.durations.empty()) { m = w.durations.front(); w.durations.pop_front(); }
        else if (w.stage >= 1 && ! w.announced) { m = w.last_marker; w.announced = true; }
        else { park(w, last); continue; }
        coop::point();
        ev("dur", A(m));
        durability_callback cb{*w.db};
        cb(static_cast<durability_callback::marker_type>(m));
    }
}
explore::scenario make(prog::program const& p, hist::recorder& rec) {
    explore::scenario sc;
    auto w = std::make_shared<world>(); cur = w.get(); w->rec = &rec;
    std::size_t workers = 2; std::string conf{};
    std::map<int, engine_plan> plans{};
    for (auto const& s : p.init) {
        auto e = s.find('='); auto k = s.substr(0, e), v = s.substr(e + 1);
        if (k == "W") workers = std::stoul(v);
        else if (k == "C") conf = v;
        else if (k == "D") { for (auto const& x : prog::split(v, ',')) w->durations.push_back(std::stoi(x)); }
        else if (k[0] == 'T') {
            engine_plan pl{}; if (v[0] == 's') { pl.inside = true; v = v.substr(1); }
            if (v == "err") { pl.ok = false; pl.marker = 0; } else pl.marker = std::stoi(v.substr(2));
            plans[std::stoi(k.substr(1))] = pl;
        }
    }
    auto has = [&](char x) { return conf.find(x) != std::string::npos; };
    w->cfg = std::make_shared<configuration>();
    w->cfg->thread_pool_size(workers);
    w->cfg->inplace_teardown(! has('t'));
    w->cfg->inplace_dag_schedule(! has('d'));
    w->cfg->direct_commit_callback(has('c'));
    w->cfg->omit_task_when_idle(! has('o'));
    global::config_pool(maybe_shared_ptr<configuration>{w->cfg});
    w->db = std::make_shared<api::impl::database>(w->cfg);
    if (has('h')) w->db->task_scheduler_ = std::make_shared<scheduler::hybrid_task_scheduler>(scheduler::thread_params{w->cfg});
    else w->db->task_scheduler_ = std::make_shared<scheduler::stealing_task_scheduler>(scheduler::thread_params{w->cfg});
    w->sched = sched_type::last();
    w->sm->add_entry(1, "t", std::nullopt, true);
    (void) w->db->durability_manager_->instant_update_if_waitlist_empty(0);
    std::string txs{};
    for (auto& [t, pl] : plans) {
        w->plans[t] = pl; w->names[t] = "TX-" + std::to_string(t); w->last_marker = std::max(w->last_marker, pl.marker);
        auto k = std::make_shared<kvs::transaction>(); w->ids[k.get()] = t;
        w->txs[t] = std::make_shared<transaction_context>(k, std::make_shared<api::transaction_option>());
        w->txs[t]->state(transaction_state_kind::init); w->txs[t]->state(transaction_state_kind::active);
        txs += (txs.empty() ? "" : ",") + std::to_string(t);
    }
    for (auto m : w->durations) w->last_marker = std::max(w->last_marker, m);
    rec.init(hist::val{"[" + txs + "]"}, workers + (has('h') ? p.threads.size() + 2 : 0), conf);
    auto keep = std::make_shared<int>(0);
    sc.keep = [w] {};
    w->busy = static_cast<int>(p.threads.size() + workers + 2);
    w->need = w->daemons = static_cast<int>(workers + 2);
    for (std::size_t t = 0; t < p.threads.size(); ++t)
        sc.threads.emplace_back([w, t, &rec, ops = p.threads[t]] {
            scheduler::thread_local_info_ = {};
            for (auto const& o : ops) step(*w, rec, static_cast<int>(t), o);
            leave(*w);
        });
    for (std::size_t i = 0; i < workers; ++i) sc.threads.emplace_back([w, i] { worker(*w, i); });
    sc.threads.emplace_back([w] { engine(*w); });
    sc.threads.emplace_back([w] { durability(*w); });
    sc.finish = [w, &rec] {
        std::stringstream ss{}; w->db->task_scheduler()->print_diagnostic(ss);
        std::string l{}, jobs{"?"}; while (std::getline(ss, l)) if (auto k = l.find("job_count: "); k != std::string::npos) jobs = l.substr(k + 11);
        rec.seqraw(0, "end", A(), A(std::stoi(jobs), static_cast<int>(w->db->durable_manager()->current_marker())));
        for (auto& [t, x] : w->txs) rec.seqraw(0, "fin", A(t), A(static_cast<int>(x->state())));
        auto e = w->sm->find_entry(1);
        rec.seqraw(0, "tbl", A(), A(e->can_lock(), static_cast<int>(e->ref_transaction_count())));
    };
    return sc;
}
}
int main(int argc, char** argv) { (void) argc; return prog::drive(make, std::strtoull(argv[1], nullptr, 10)); }
