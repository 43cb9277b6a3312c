#include "prog.h"
#include <jogasaki/utils/latch.h>
#include <jogasaki/utils/waitable_atomic.h>
using namespace jogasaki;
namespace {
explore::scenario make(prog::program const& p, hist::recorder& rec) {
    explore::scenario sc;
    if (p.init[0] == "latch") {
        bool rel = p.init[1] == "1";
        auto l = std::make_shared<utils::latch>(rel);
        rec.init(rel);
        sc.keep = [l] {};
        for (std::size_t t = 0; t < p.threads.size(); ++t) {
            sc.threads.emplace_back([l, t, &rec, ops = p.threads[t]] {
                int id = static_cast<int>(t);
                for (auto const& o : ops) {
                    rec.call(id, o[0]);
                    if (o[0] == "release") { l->release(); rec.ret(id); }
                    else if (o[0] == "wait") { l->wait(); rec.ret(id); }
                    else if (o[0] == "waitfor") { bool r = l->wait(std::chrono::milliseconds(10)); rec.ret(id, r); }
                    else if (o[0] == "reset") { l->reset(); rec.ret(id); }
                }
            });
        }
        return sc;
    }
    int iv = std::stoi(p.init[1]);
    auto w = std::make_shared<utils::waitable_atomic<int>>(iv);
    rec.init(iv);
    sc.keep = [w] {};
    for (std::size_t t = 0; t < p.threads.size(); ++t) {
        sc.threads.emplace_back([w, t, &rec, ops = p.threads[t]] {
            int id = static_cast<int>(t);
            auto I = [](std::string const& s) { return std::stoi(s); };
            for (auto const& o : ops) {
                if (o[0] == "store") { rec.call(id, "store", I(o[1])); if (o.size() > 2) *w = I(o[1]); else w->store(I(o[1])); rec.ret(id); }
                else if (o[0] == "load") { rec.call(id, "load"); int v = o.size() > 1 ? static_cast<int>(*w) : w->load(); rec.ret(id, v); }
                else if (o[0] == "wait") { rec.call(id, "wait", I(o[1])); w->wait(I(o[1])); rec.ret(id); }
                else if (o[0] == "waitfor") { rec.call(id, "waitfor", I(o[1])); bool r = w->wait_for(std::chrono::milliseconds(10), I(o[1])); rec.ret(id, r); }
                else if (o[0] == "notify_all") { rec.call(id, "notify_all"); w->notify_all(); rec.ret(id); }
                else if (o[0] == "notify_one") { rec.call(id, "notify_one"); w->notify_one(); rec.ret(id); }
                else if (o[0] == "cas") { int e = I(o[1]); rec.call(id, "cas", e, I(o[2])); bool r = w->compare_exchange_strong(e, I(o[2])); rec.ret(id, r, e); }
                else if (o[0] == "casw") { int e = I(o[1]); rec.call(id, "casw", e, I(o[2])); bool r = w->compare_exchange_weak(e, I(o[2])); rec.ret(id, r, e); }
            }
        });
    }
    return sc;
}
}
int main(int, char** argv) { return prog::drive(make, std::stoull(argv[1])); }
