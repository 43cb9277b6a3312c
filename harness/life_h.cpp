// Life cycle of a transaction's status, and the recorded errors (C02).
// Programs: "<initial state> : ops | ops": set K, setif A B, read (status); terr C, tget (transaction's error); rerr C, rget, rst S, rstget (request); serr C S
#include "prog.h"
#define VERIF_NO_PAGE_POOL
#include "globals_stub.h"
#include <jogasaki/error/error_info.h>
#include <jogasaki/error/error_info_factory.h>
#include <jogasaki/request_context.h>
#include <jogasaki/storage/storage_manager.h>
#include <jogasaki/transaction_context.h>
#include <jogasaki/transaction_state.h>
using namespace jogasaki;
namespace jogasaki::global {
std::shared_ptr<storage::storage_manager> const& storage_manager(std::shared_ptr<storage::storage_manager>) { static auto m = std::make_shared<storage::storage_manager>(); return m; }
}
namespace {
struct world {
    transaction_state st{};
    std::shared_ptr<transaction_context> tx{std::make_shared<transaction_context>(nullptr, nullptr)};
    request_context rq{};
    std::vector<std::shared_ptr<error::error_info>> errs{};
};
auto K(std::string const& s) { return static_cast<transaction_state_kind>(std::stoi(s)); }
int code(std::shared_ptr<error::error_info> const& e) { return e ? static_cast<int>(e->code()) : -1; }
std::shared_ptr<error::error_info> mk(int c, int s) {
    hist::quiet q;
    auto e = std::make_shared<error::error_info>(static_cast<error_code>(c), "m", "f", "p", "");
    e->status(static_cast<status>(s));
    return e;
}
void step(world& w, hist::recorder& rec, int id, prog::op const& o) {
    auto const& c = o[0];
    auto n = [&](std::size_t i) { return std::stoi(o[i]); };
    if (c == "set") { rec.call(id, "set", n(1)); w.st.set(K(o[1])); rec.ret(id, 0); }
    else if (c == "setif") { rec.call(id, "setif", n(1), n(2)); bool r = w.st.set_if(K(o[1]), K(o[2])); rec.ret(id, r ? 1 : 0); }
    else if (c == "read") { rec.call(id, "read"); auto r = w.st.kind(); rec.ret(id, static_cast<int>(r)); }
    else if (c == "tset") { rec.call(id, "tset", n(1)); w.tx->state(K(o[1])); rec.ret(id, 0); }
    else if (c == "tread") { rec.call(id, "tread"); auto r = w.tx->state(); rec.ret(id, static_cast<int>(r)); }
    else if (c == "terr") { auto e = mk(n(1), -1); rec.call(id, "terr", n(1)); bool r = w.tx->error_info(e); rec.ret(id, r ? 1 : 0); }
    else if (c == "tget") { rec.call(id, "tget"); auto r = w.tx->error_info(); rec.ret(id, code(r)); }
    else if (c == "rerr") { auto e = mk(n(1), -1); rec.call(id, "rerr", n(1)); bool r = w.rq.error_info(e); rec.ret(id, r ? 1 : 0); }
    else if (c == "rget") { rec.call(id, "rget"); auto r = w.rq.error_info(); rec.ret(id, code(r)); }
    else if (c == "rst") { rec.call(id, "rst", n(1)); bool r = w.rq.status_code(static_cast<status>(n(1)), "m"); rec.ret(id, r ? 1 : 0); }
    else if (c == "rstget") { rec.call(id, "rstget"); auto r = w.rq.status_code(); rec.ret(id, static_cast<int>(r)); }
    else if (c == "serr") { auto e = mk(n(1), n(2)); rec.call(id, "serr", n(1), n(2)); error::set_error_info(w.rq, e); rec.ret(id, 0); }
}
explore::scenario make(prog::program const& p, hist::recorder& rec) {
    explore::scenario sc;
    auto w = std::make_shared<world>();
    w->rq.transaction(w->tx);
    rec.init(0);
    sc.keep = [w] {};
    for (std::size_t t = 0; t < p.threads.size(); ++t)
        sc.threads.emplace_back([w, t, &rec, ops = p.threads[t]] { for (auto const& o : ops) step(*w, rec, static_cast<int>(t), o); });
    sc.finish = [w, &rec] { for (auto o : {"read", "tread", "tget", "rget", "rstget"}) step(*w, rec, 98, {o}); };
    return sc;
}
}
int main(int argc, char** argv) { (void) argc; return prog::drive(make, std::strtoull(argv[1], nullptr, 10)); }
