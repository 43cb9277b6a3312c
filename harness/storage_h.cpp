// Tables: names, locks, references, removal. Programs:  "<n preloaded entries> <entry>... : ops | ops", entry = id,name,key,prim,pe,orig
#include "prog.h"
#define VERIF_NO_PAGE_POOL
#include "globals_stub.h"
#include <jogasaki/kvs/database.h>
#include <jogasaki/kvs/storage.h>
#include <jogasaki/storage/maintenance_storage.h>
#include <jogasaki/storage/reference_scope.h>
#include <jogasaki/storage/shared_lock.h>
#include <jogasaki/storage/storage_manager.h>
#include <jogasaki/storage/unique_lock.h>
using namespace jogasaki;
namespace {
struct world {
    std::shared_ptr<storage::storage_manager> m{std::make_shared<storage::storage_manager>()};
    std::map<int, std::unique_ptr<storage::unique_lock>> ul{};
    std::map<int, std::unique_ptr<storage::shared_lock>> sl{};
    std::map<int, std::unique_ptr<storage::reference_scope>> sc{};
    std::map<std::string, std::string> store{}; // key -> answer of the store when asked to remove it ("ok", "not_found", "error"); absent = not there
    std::map<std::string, int> ids{};           // original name -> id
    std::atomic_bool stop{false};
};
world* cur{}; hist::recorder* cur_rec{}; thread_local int my_id = 0;
std::map<void*, std::string> handles{};
std::vector<std::uint64_t> ids(std::string const& s) { std::vector<std::uint64_t> r; if (s != "-") for (auto& x : prog::split(s, ',')) r.push_back(std::stoull(x)); return r; }
std::string js(std::vector<std::uint64_t> const& v) { std::string r = "["; for (auto x : v) r += (r.size() > 1 ? "," : "") + std::to_string(x); return r + "]"; }

}

namespace jogasaki::global {
std::shared_ptr<storage::storage_manager> const& storage_manager(std::shared_ptr<storage::storage_manager>) { return cur->m; }
std::shared_ptr<kvs::database> const& db(std::shared_ptr<kvs::database>) { static auto d = std::shared_ptr<kvs::database>(reinterpret_cast<kvs::database*>(0x10), [](auto*) {}); return d; }
}
namespace jogasaki::kvs {
storage::storage(sharksfin::StorageHandle h) noexcept : handle_(h) {}
storage::~storage() noexcept { delete reinterpret_cast<std::string*>(handle_); }
std::unique_ptr<storage> database::get_storage(std::string_view name) {
    hist::quiet q;
    std::string k{name};
    if (! cur->store.count(k)) { cur_rec->seqraw(my_id, "del", "[\"" + k + "\"]", "[\"missing\"]"); return {}; }
    return std::make_unique<storage>(reinterpret_cast<sharksfin::StorageHandle>(new std::string(k)));
}
status storage::delete_storage() {
    hist::quiet q;
    auto& k = *reinterpret_cast<std::string*>(handle_);
    auto r = cur->store.count(k) ? cur->store[k] : "missing";
    cur_rec->seqraw(my_id, "del", "[\"" + k + "\"]", "[\"" + r + "\"]");
    if (r == "ok") cur->store.erase(k);
    if (r == "error") { cur->store[k] = "ok"; return status::err_unknown; }
    return r == "not_found" ? status::not_found : status::ok;
}
}
namespace {
std::optional<std::string_view> opt(std::string const& s) { return s.empty() || s == "-" ? std::nullopt : std::optional<std::string_view>{s}; }
std::string ns(std::string const& s) { return s == "-" ? "" : s; }
std::string str(std::optional<std::string> const& s) { return s.value_or(""); }
void step(world& w, hist::recorder& rec, int id, prog::op const& o) {
    auto& m = *w.m; auto const& c = o[0];
    auto n = [&](std::size_t i) { return std::stoi(o[i]); };
    if (c == "add") {
        std::string nm = ns(o[2]), ky = ns(o[3]), og = ns(o[6]); bool prim = o[4] == "1"; int pe = n(5);
        { hist::quiet q; w.ids[og.empty() ? nm : og] = n(1); }
        rec.call(id, "add", n(1), nm, ky, prim, pe, og);
        rec.ret(id, m.add_entry(static_cast<std::uint64_t>(n(1)), opt(nm), opt(ky), prim, pe ? std::optional<storage::storage_entry>(pe) : std::nullopt, opt(og)));
    } else if (c == "mark") { rec.call(id, "mark", n(1)); rec.ret(id, m.reserve_delete_entry(n(1))); }
    else if (c == "rm") { rec.call(id, "rm", n(1)); rec.ret(id, m.remove_entry(n(1))); }
    else if (c == "has") { rec.call(id, "has", n(1)); bool r = static_cast<bool>(m.find_entry(n(1))); rec.ret(id, r); }
    else if (c == "info") {
        rec.call(id, "info", n(1)); auto e = m.find_entry(n(1));
        if (! e) rec.ret(id);
        else rec.ret(id, std::string(e->name().value_or("")), std::string(e->derived_storage_key()), std::string(e->original_name()), e->is_primary(), static_cast<int>(e->primary_entry().value_or(0)), e->delete_reserved(), e->can_lock(), e->can_lock_shared(), e->ref_transaction_count());
    } else if (c == "byname") { rec.call(id, "byname", o[1]); auto r = m.find_by_name(o[1]); rec.ret(id, static_cast<int>(r.value_or(0))); }
    else if (c == "key") { rec.call(id, "key", o[1]); auto r = m.get_storage_key(o[1]); rec.ret(id, str(r)); }
    else if (c == "idx") { rec.call(id, "idx", o[1]); auto r = m.get_index_name(o[1]); rec.ret(id, str(r)); }
    else if (c == "size") { rec.call(id, "size"); auto r = m.size(); rec.ret(id, r); }
    else if (c == "refs") { rec.call(id, "refs", n(1)); auto e = m.find_entry(n(1)); std::size_t r = e ? e->ref_transaction_count() : 99; { hist::quiet q; e.reset(); } rec.ret(id, r); }
    else if (c == "mlist") { rec.call(id, "mlist"); auto r = m.get_delete_reserved_entries(); int code = 0; for (auto x : r) code += 1 << x; rec.ret(id, code); }
    else if (c == "uadd") {
        int h = n(1); if (! w.ul[h]) w.ul[h] = m.create_unique_lock();
        auto l = ids(o[2]); rec.call(id, "uadd", h, hist::val{js(l)}); storage::storage_list sl{l}; bool r = m.add_locked_storages(sl, *w.ul[h]); rec.ret(id, r);
    } else if (c == "usub") {
        int h = n(1); auto l = ids(o[2]); std::vector<std::uint64_t> have; if (w.ul[h]) for (auto x : l) if (w.ul[h]->storage().contains(x)) have.push_back(x);
        if (have.empty()) return;
        rec.call(id, "usub", h, hist::val{js(have)}); storage::storage_list sl{have}; m.remove_locked_storages(sl, *w.ul[h]); rec.ret(id);
    } else if (c == "urel") { int h = n(1); if (! w.ul[h]) return; rec.call(id, "urel", h); w.ul[h].reset(); rec.ret(id); }
    else if (c == "uone") { int h = n(1); if (! w.ul[h]) return; rec.call(id, "uone", h, n(2)); w.ul[h]->release_storage(n(2)); rec.ret(id); }
    else if (c == "uholds") { int h = n(1); rec.call(id, "uholds", h, n(2)); bool r = w.ul[h] && w.ul[h]->storage().contains(n(2)); rec.ret(id, r); }
    else if (c == "sget") {
        int h = n(1); if (w.sl[h]) return; int pa = n(3);
        auto l = ids(o[2]); rec.call(id, "sget", h, hist::val{js(l)}, pa); storage::storage_list sl{l}; auto r = m.create_shared_lock(sl, pa && w.ul[pa] ? w.ul[pa].get() : nullptr); bool got = static_cast<bool>(r); w.sl[h] = std::move(r); rec.ret(id, got);
    } else if (c == "srel") { int h = n(1); if (! w.sl[h]) return; rec.call(id, "srel", h); w.sl[h].reset(); rec.ret(id); }
    else if (c == "ref") { int h = n(1); if (! w.sc[h]) w.sc[h] = std::make_unique<storage::reference_scope>(m); rec.call(id, "ref", h, n(2)); w.sc[h]->add_storage(n(2)); rec.ret(id); }
    else if (c == "scend") { int h = n(1); if (! w.sc[h]) return; rec.call(id, "scend", h); w.sc[h].reset(); rec.ret(id); }
    else if (c == "stop") { bool b = o[1] == "1"; rec.call(id, "stop", b); w.stop = b; rec.ret(id); }
    else if (c == "maint") {
        rec.call(id, "maint"); my_id = id; auto r = storage::maintenance_storage(&w.stop); int code = 0; { hist::quiet q; for (auto& x : r) code += 1 << w.ids[x]; }
        rec.ret(id, code);
    } else if (c == "clear") { rec.call(id, "clear"); m.clear(); rec.ret(id); }
}
explore::scenario make(prog::program const& p, hist::recorder& rec) {
    explore::scenario sc;
    auto w = std::make_shared<world>(); cur = w.get(); cur_rec = &rec;
    rec.init(0);
    // init: "id,name,key,prim,pe,orig" entries, "k=answer" of the store
    for (auto const& s : p.init) {
        if (auto e = s.find('='); e != std::string::npos) { w->store[s.substr(0, e)] = s.substr(e + 1); continue; }
        auto f = prog::split(s, ',');
        if (f.size() == 6) step(*w, rec, 99, {"add", f[0], f[1], f[2], f[3], f[4], f[5]});
    }
    sc.keep = [w] {};
    for (int h = 0; h < 60; ++h) { w->ul[h]; w->sl[h]; w->sc[h]; }
    for (std::size_t t = 0; t < p.threads.size(); ++t)
        sc.threads.emplace_back([w, t, &rec, ops = p.threads[t]] { for (auto const& o : ops) step(*w, rec, static_cast<int>(t), o); });
    std::vector<std::string> es; for (auto const& s : p.init) { auto f = prog::split(s, ','); if (f.size() == 6) es.push_back(f[0]); }
    sc.finish = [w, &rec, es] {
        for (auto& e : es) step(*w, rec, 98, {"info", e});
        step(*w, rec, 98, {"size"});
        for (auto& [h, x] : w->sl) if (x) step(*w, rec, 98, {"srel", std::to_string(h)});
        for (auto& [h, x] : w->ul) if (x) step(*w, rec, 98, {"urel", std::to_string(h)});
        for (auto& [h, x] : w->sc) if (x) step(*w, rec, 98, {"scend", std::to_string(h)});
        for (auto& e : es) step(*w, rec, 98, {"info", e});
    };
    return sc;
}
} // namespace
int main(int argc, char** argv) { (void) argc; return prog::drive(make, std::strtoull(argv[1], nullptr, 10)); }
