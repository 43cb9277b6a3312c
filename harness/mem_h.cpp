// Drives one paged memory resource sequentially; prints one event per operation.
#include <iostream>
#include <sstream>
#include <deque>
#include <cstring>
#include "globals_stub.h"
#include "pages.h"
#include <jogasaki/memory/fifo_paged_memory_resource.h>
#include <jogasaki/memory/lifo_paged_memory_resource.h>
#include <jogasaki/memory/monotonic_paged_memory_resource.h>
using namespace jogasaki;
using namespace jogasaki::memory;
namespace {
struct blk { unsigned char* p; std::size_t n, al; unsigned char tag; };
std::string list(std::vector<int>& v) { std::string r = "["; for (std::size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + std::to_string(v[i]); v.clear(); return r + "]"; }
std::unique_ptr<page_pool> pool;
std::unique_ptr<paged_memory_resource> res;
std::deque<blk> live; std::string kind; unsigned char tag = 0;
std::vector<fifo_paged_memory_resource::checkpoint> fcp; std::vector<std::pair<std::size_t, std::size_t>> dummy;
std::vector<lifo_paged_memory_resource::checkpoint> lcp; std::vector<std::size_t> cpn; std::size_t total = 0;
bool intact() {
    for (auto const& b : live) {
        std::size_t n = b.n;
        if (n > 0 && (b.p[0] != b.tag || b.p[n - 1] != b.tag || b.p[n / 2] != b.tag)) return false;
    }
    return true;
}
void ev(std::string const& op, std::string const& a) {
    auto& bk = pages::book::get();
    std::string m = list(bk.mapped), u = list(bk.unmapped);
    std::size_t cnt = 0, rem = 0;
    if (res) {
        cnt = kind == "fifo" ? static_cast<fifo_paged_memory_resource*>(res.get())->count_pages() : kind == "lifo" ? static_cast<lifo_paged_memory_resource*>(res.get())->count_pages()
            : static_cast<monotonic_paged_memory_resource*>(res.get())->count_pages();
        rem = res->page_remaining(1);
    }
    std::cout << "{\"e\":\"s\",\"t\":0,\"op\":\"" << op << "\",\"a\":[" << m << "," << u << (a.empty() ? "" : ",") << a << "],\"v\":[" << cnt << "," << rem << "," << (intact() ? "true" : "false") << "]}\n";
}
void endall() {
    if (! res) return;
    live.clear();
    auto* r = res.release(); delete r;
    ev("end", "");
    pool.reset();
    auto& bk = pages::book::get(); 
    ev("pool_end", "");
    std::cout.flush();
}
}
int main(int, char**) {
    global::config_pool()->return_os_pages(true);
    std::string line;
    while (std::getline(std::cin, line)) {
        std::istringstream is(line); std::string op; is >> op;
        if (op == "RESET") {
            endall(); pages::book::get().next = 0; pages::book::get().mapped.clear(); pages::book::get().unmapped.clear();
            is >> kind; pool = std::make_unique<page_pool>();
            if (kind == "fifo") res = std::make_unique<fifo_paged_memory_resource>(pool.get());
            else if (kind == "lifo") res = std::make_unique<lifo_paged_memory_resource>(pool.get());
            else res = std::make_unique<monotonic_paged_memory_resource>(pool.get());
            live.clear(); fcp.clear(); lcp.clear(); cpn.clear(); total = 0; tag = 0;
            std::cout << "{\"e\":\"i\",\"a\":[\"" << kind << "\"]}\n";
            continue;
        }
        std::size_t x = 0, y = 0; is >> x >> y;
        if (op == "alloc") {
            std::size_t rem = res->page_remaining(y);
            try {
                auto* p = static_cast<unsigned char*>(res->allocate(x, y));
                auto [pg, off] = pages::book::get().find(p);
                ++tag; if (x > 0) std::memset(p, tag, x > 64 ? 64 : x), std::memset(p + x / 2, tag, 1), p[x - 1] = tag, p[0] = tag;
                live.push_back({p, x, y, tag}); ++total;
                ev("alloc", std::to_string(x) + "," + std::to_string(y) + "," + std::to_string(pg) + "," + std::to_string(off) + "," + std::to_string(rem));
            } catch (std::bad_alloc const&) { ev("refused", std::to_string(x)); }
        } else if (op == "free") {
            if (kind == "fifo") { auto b = live.front(); live.pop_front(); res->deallocate(b.p, b.n, b.al); }
            else { auto b = live.back(); live.pop_back(); --total; res->deallocate(b.p, b.n, b.al); }
            ev("free", "");
        } else if (op == "cp") {
            if (kind == "fifo") fcp.push_back(static_cast<fifo_paged_memory_resource*>(res.get())->get_checkpoint());
            else lcp.push_back(static_cast<lifo_paged_memory_resource*>(res.get())->get_checkpoint());
            cpn.push_back(total);
            ev("cp", "");
        } else if (op == "rewind") { // x: checkpoint index (0 based, in creation order)
            if (kind == "fifo") {
                auto keep = total - cpn[x];
                while (live.size() > keep) live.pop_front();
                static_cast<fifo_paged_memory_resource*>(res.get())->deallocate_before(fcp[x]);
            } else {
                while (live.size() > cpn[x]) live.pop_back();
                total = live.size();
                static_cast<lifo_paged_memory_resource*>(res.get())->deallocate_after(lcp[x]);
            }
            ev("rewind", std::to_string(x));
        } else if (op == "clear") { // lifo: back to the very beginning
            live.clear(); total = 0;
            static_cast<lifo_paged_memory_resource*>(res.get())->deallocate_after(lifo_paged_memory_resource::initial_checkpoint);
            ev("clear", "");
        } else if (op == "endpage") { res->end_current_page(); ev("endpage", ""); }
    }
    endall();
}
