// Exploration driver for instrumented harnesses.
#pragma once
#include "hist.h"
#include "coop.h"
#include <chrono>
#include <memory>
namespace explore {
struct budget { int dfs_bound; std::uint64_t dfs_max; std::uint64_t random_runs; double seconds; };
inline double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
// body(recorder) prepares a fresh scenario: returns thread bodies; fin(rec, result) is called afterwards
struct scenario {
    std::vector<std::function<void()>> threads;
    std::function<void()> finish;     // after all threads finished (not after a deadlock)
    std::function<void()> keep;       // owns the state
};
template <class Make>
bool run_all(Make make, hist::collector& col, budget b, std::uint64_t seed) {
    auto t0 = now();
    auto once = [&](coop::strategy& st) {
        auto rec = std::make_shared<hist::recorder>();
        auto sc = make(*rec);
        auto r = coop::run(sc.threads, st);
        if (r.deadlock || r.livelock) {
            col.deadlocks += r.deadlock; col.livelocks += r.livelock;
            rec->end();
            if (r.livelock) rec->raw("{\"e\":\"livelock\"}");
            col.add(rec->text());
            new std::shared_ptr<hist::recorder>(rec); new scenario(std::move(sc)); // parked threads still use them
            return;
        }
        if (sc.finish) sc.finish();
        rec->end();
        col.add(rec->text());
    };
    bool complete = false;
    if (b.dfs_bound >= 0) {
        coop::dfs_strategy d(b.dfs_bound);
        std::uint64_t n = 0;
        for (;;) {
            d.begin();
            once(d);
            if (! d.advance()) { complete = true; break; }
            if (++n >= b.dfs_max || now() - t0 > b.seconds * 0.6 || col.deadlocks + col.livelocks > 20) break;
        }
    }
    static double const ps[] = {0.05, 0.15, 0.3, 0.6};
    for (std::uint64_t i = 0; i < b.random_runs; ++i) {
        if (now() - t0 > b.seconds || col.deadlocks + col.livelocks > 40) break;
        static double const pm[] = {0, 0.01, 0.03, 0.1, 0.3};
#ifdef VERIF_MEM
        coop::random_strategy s(seed * 1000003 + i, ps[i % 4], 0.02, pm[i % 5]);
#else
        coop::random_strategy s(seed * 1000003 + i, ps[i % 4]);
#endif
        once(s);
    }
    return complete;
}
} // namespace explore
