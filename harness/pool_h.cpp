// Concurrent users of one page pool.
#include "prog.h"
#include "globals_stub.h"
#include "pages.h"
namespace { thread_local int vnode = 0; int vnodes = 1; }
extern "C" int __wrap_numa_num_configured_nodes() { return vnodes; }
extern "C" int __wrap_numa_node_of_cpu(int) { return vnode; }
using namespace jogasaki;
using memory::page_pool;
namespace {
struct world { std::unique_ptr<page_pool> pool; std::vector<page_pool::page_info> stash; };
int idof(page_pool::page_info p) { return pages::book::get().find(p.address()).first; }
std::string ids(std::vector<int> v) { std::sort(v.begin(), v.end()); std::string r = "["; for (auto i : v) r += (r.size() > 1 ? "," : "") + std::to_string(i); return r + "]"; }
explore::scenario make(prog::program const& p, hist::recorder& rec) {
    explore::scenario sc;
    bool ros = p.init[1] == "1"; vnodes = std::stoi(p.init[2]); int pre = std::stoi(p.init[3]);
    auto& bk = pages::book::get(); bk.live.clear(); bk.mapped.clear(); bk.unmapped.clear(); bk.next = 0; bk.spare.clear();
    static std::vector<std::uintptr_t> all; // keep the address space bounded
    if (bk.spare.empty() && all.size() > 64) { }
    global::config_pool()->return_os_pages(ros);
    auto w = std::make_shared<world>(); w->pool = std::make_unique<page_pool>();
    rec.init(ros);
    vnode = 0;
    std::vector<page_pool::page_info> tmp;
    for (int i = 0; i < pre; ++i) { rec.call(99, "acquire", false); tmp.push_back(w->pool->acquire_page()); rec.ret(99, idof(tmp.back())); }
    for (auto& x : tmp) { int id = idof(x); rec.call(99, "release", id); w->pool->release_page(x); rec.ret(99); }
    sc.keep = [w] {};
    for (std::size_t t = 0; t < p.threads.size(); ++t) {
        sc.threads.emplace_back([w, t, &rec, ops = p.threads[t]] {
            int id = static_cast<int>(t); std::deque<page_pool::page_info> mine;
            vnode = vnodes > 1 ? id % 2 : 0;
            for (auto const& o : ops) {
                if (o[0] == "node") { vnode = std::stoi(o[1]) % vnodes; continue; }
                if (o[0] == "acquire" || o[0] == "brandnew") {
                    bool b = o[0] == "brandnew";
                    rec.call(id, "acquire", b); auto pg = w->pool->acquire_page(b);
                    auto* c = static_cast<unsigned char*>(pg.address());
                    int pid = idof(pg);
                    if (pid != 0) { c[0] = 1; c[page_pool::min_alignment] = 1; c[pages::psize - 1] = 1; }
                    rec.ret(id, pid); mine.push_back(pg);
                } else if (o[0] == "release" && ! mine.empty()) {
                    auto pg = mine.front(); mine.pop_front(); int pid = idof(pg);
                    rec.call(id, "release", pid); w->pool->release_page(pg); rec.ret(id);
                } else if (o[0] == "give" && ! mine.empty()) { w->stash.push_back(mine.front()); mine.pop_front(); }
                else if (o[0] == "xrelease" && ! w->stash.empty()) {
                    auto pg = w->stash.back(); w->stash.pop_back(); int pid = idof(pg);
                    rec.call(id, "release", pid); w->pool->release_page(pg); rec.ret(id);
                }
            }
        });
    }
    sc.finish = [w, &rec, &bk] {
        w->pool.reset();
        std::vector<int> left; for (auto const& e : bk.live) left.push_back(e.second);
        rec.seqraw(99, "end", "[" + ids(bk.unmapped) + "," + ids(left) + "]", "[]");
        while (! bk.live.empty()) __wrap_munmap(reinterpret_cast<void*>(bk.live.begin()->first), pages::psize);
        for (auto a : bk.spare) __real_munmap(reinterpret_cast<void*>(a - (a % 8192 == 0 ? 0 : 0)), pages::psize);
        bk.spare.clear();
    };
    return sc;
}
}
int main(int, char** argv) { return prog::drive(make, std::stoull(argv[1])); }
