// Cooperative scheduler: real threads, exactly one runs at a time; every instrumented
// atomic / mutex / condition-variable operation is a scheduling point decided by a strategy.
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <string>
#include <vector>
#include <random>

namespace coop {

enum class pk : int { op = 0, yield = 1, spin = 2 };

// -- used by instrumented code --
bool managed();                          // is the calling thread under control of a running scheduler?
int  self();                             // index of the managed thread or -1
void point(pk k = pk::op);               // scheduling point
bool block(void const* obj, bool timed); // park on obj; returns false when woken by time-out
void wake_all(void const* obj);
void wake_one(void const* obj);
bool spurious();                         // strategy-chosen spurious failure (weak CAS)
void mem_point();                        // plain memory access outside the own stack (see tsanrt.cpp)
struct quiet { quiet(); ~quiet(); quiet(quiet const&) = delete; quiet& operator=(quiet const&) = delete; }; // no memory points while alive

// -- used by harnesses --
struct strategy {
    virtual ~strategy() = default;
    // choose one of n options; option 0 is "keep running the current thread" when cur_runnable
    virtual int choose(int n, bool cur_runnable) = 0;
    virtual bool spurious() { return false; }
    virtual bool mem() { return false; }              // take a scheduling point at this plain memory access?
    virtual int pick(int n) { (void) n; return 0; }  // other nondeterminism (which waiter to wake)
};

struct random_strategy : strategy {
    std::mt19937_64 rng; double p; double ps; double pm{0};
    random_strategy(std::uint64_t seed, double switch_prob, double spurious_prob = 0.02, double mem_prob = 0)
        : rng(seed), p(switch_prob), ps(spurious_prob), pm(mem_prob) {}
    bool mem() override { return pm > 0 && static_cast<double>(rng() >> 11) * 0x1.0p-53 < pm; }
    int choose(int n, bool cur) override {
        if (cur && n > 1) {
            if (std::uniform_real_distribution<>(0, 1)(rng) >= p) return 0;
            return 1 + static_cast<int>(rng() % static_cast<unsigned>(n - 1));
        }
        return static_cast<int>(rng() % static_cast<unsigned>(n));
    }
    bool spurious() override { return ps > 0 && std::uniform_real_distribution<>(0, 1)(rng) < ps; }
    int pick(int n) override { return static_cast<int>(rng() % static_cast<unsigned>(n)); }
};

// depth first enumeration of all schedules with at most `bound` preemptions
struct dfs_strategy : strategy {
    int bound; std::vector<std::pair<int,int>> path; std::size_t pos{0}; int used{0}; bool diverged{false};
    explicit dfs_strategy(int b) : bound(b) {}
    void begin() { pos = 0; used = 0; }
    int next(int n) {
        if (n <= 1) return 0;
        if (pos < path.size()) {
            if (path[pos].second != n) { diverged = true; path.resize(pos); path.emplace_back(0, n); }
            return path[pos++].first;
        }
        path.emplace_back(0, n); ++pos; return 0;
    }
    int choose(int n, bool cur) override {
        if (cur && used >= bound) return 0;
        int c = next(n);
        if (cur && c != 0) ++used;
        return c;
    }
    int pick(int n) override { return next(n); }
    bool advance() { // move to next path; false when exhausted
        path.resize(pos < path.size() ? pos : path.size());
        while (! path.empty()) {
            if (path.back().first + 1 < path.back().second) { ++path.back().first; return true; }
            path.pop_back();
        }
        return false;
    }
};

struct result { bool deadlock{false}; bool livelock{false}; std::string who; std::uint64_t steps{0}; };

// Runs the bodies as managed threads until all finish.
result run(std::vector<std::function<void()>> const& bodies, strategy& st, std::uint64_t max_steps = 200000);

} // namespace coop
