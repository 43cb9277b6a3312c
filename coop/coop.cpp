#include "coop.h"
#include <algorithm>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <memory>
#include <cstdlib>
#include <cstdio>
#include <semaphore.h>
#include <sched.h>
#include <unistd.h>

namespace coop {
namespace {
enum class st : int { ready, blocked, timed, finished };
struct thr {
    sem_t sem{};
    st state{st::ready};
    void const* obj{nullptr};
    bool timed_out{false};
    bool yielded{false};
    std::uint64_t run_len{0};
    std::uint64_t last{0};
};
struct sched {
    std::vector<std::unique_ptr<thr>> t;
    strategy* strat{};
    int cur{-1};
    std::uint64_t steps{0}, max_steps{0};
    bool dead{false}, live{false};
    sem_t done{};
};
sched* S = nullptr;
thread_local int me = -1;

[[noreturn]] void park_forever() { for (;;) { std::this_thread::sleep_for(std::chrono::hours(1)); } }

void handoff(int to, int from, bool wait) {
    S->cur = to;
    auto* f = S->t[from].get();   // S may be replaced as soon as the other thread runs
    auto* n = S->t[to].get();
    sem_post(&n->sem);
    if (wait) { while (sem_wait(&f->sem) != 0) {} }
}

// choose the next thread; cur_ok: the current thread may go on
void schedule(bool cur_ok, bool finished) {
    if (++S->steps > S->max_steps) { S->live = true; auto* d = &S->done; sem_post(d); park_forever(); }
    if (me >= 0) S->t[me]->last = S->steps;
    std::vector<int> opt;
    bool force = false;
    if (cur_ok) {
        auto& c = *S->t[me];
        if (++c.run_len > 400) { force = true; c.run_len = 0; }
        if (c.yielded) force = true;
        c.yielded = false;
    }
    auto eligible = [](thr const& x) { return x.state == st::ready || x.state == st::timed; };
    for (int i = 0; i < static_cast<int>(S->t.size()); ++i) {
        if (i != me && eligible(*S->t[i])) opt.push_back(i);
    }
    int to = -1;
    if (cur_ok && (opt.empty() || ! force)) {
        opt.insert(opt.begin(), me);
        to = opt[opt.size() == 1 ? 0 : S->strat->choose(static_cast<int>(opt.size()), true)];
    } else if (cur_ok) { // forced switch: the one that waited longest comes first, so that two busy waiters do not starve the others
        std::stable_sort(opt.begin(), opt.end(), [](int a, int b) { return S->t[a]->last < S->t[b]->last; });
        to = opt[S->strat->choose(static_cast<int>(opt.size()), false)];
    } else {
        // a timed waiter that is the current one may also fire itself
        if (! finished && me >= 0 && S->t[me]->state == st::timed) opt.push_back(me);
        if (opt.empty()) {
            bool all = true;
            for (auto& x : S->t) if (x->state != st::finished) all = false;
            if (! all) S->dead = true;
            sem_post(&S->done);
            if (finished) return;
            park_forever();
        }
        to = opt[opt.size() == 1 ? 0 : S->strat->choose(static_cast<int>(opt.size()), false)];
    }
    auto& n = *S->t[to];
    if (n.state == st::timed) { n.state = st::ready; n.timed_out = true; n.obj = nullptr; }
    if (to == me) return;
    n.run_len = 0;
    handoff(to, me, ! finished);
}
} // namespace

namespace { thread_local int quiet_depth = 0; }
quiet::quiet() { ++quiet_depth; }
quiet::~quiet() { --quiet_depth; }
bool is_quiet() { return quiet_depth > 0; }
bool managed() { return me >= 0 && S != nullptr; }
int self() { return me; }
void point(pk k) {
    if (! managed()) return;
    quiet q;
    if (k != pk::op) S->t[me]->yielded = true;
    schedule(true, false);
}
void mem_point() {
    if (! managed() || quiet_depth > 0) return;
    quiet q;
    if (! S->strat->mem()) return;
    // an explicit preemption: go on with another runnable thread if there is one
    std::vector<int> opt;
    for (int i = 0; i < static_cast<int>(S->t.size()); ++i) if (i != me && S->t[i]->state == st::ready) opt.push_back(i);
    if (opt.empty()) return;
    if (++S->steps > S->max_steps) { S->live = true; auto* d = &S->done; sem_post(d); park_forever(); }
    int to = opt[S->strat->pick(static_cast<int>(opt.size()))];
    S->t[to]->run_len = 0;
    handoff(to, me, true);
}
bool block(void const* obj, bool timed) {
    if (! managed()) { std::fprintf(stderr, "coop: unmanaged thread would block\n"); std::abort(); }
    quiet q;
    auto& c = *S->t[me];
    c.state = timed ? st::timed : st::blocked;
    c.obj = obj; c.timed_out = false;
    schedule(false, false);
    return ! c.timed_out;
}
void wake_all(void const* obj) {
    if (S == nullptr) return;
    quiet q;
    for (auto& x : S->t) {
        if ((x->state == st::blocked || x->state == st::timed) && x->obj == obj) { x->state = st::ready; x->obj = nullptr; }
    }
}
void wake_one(void const* obj) {
    if (S == nullptr) return;
    quiet q;
    std::vector<thr*> w;
    for (auto& x : S->t) if ((x->state == st::blocked || x->state == st::timed) && x->obj == obj) w.push_back(x.get());
    if (w.empty()) return;
    auto* x = w[w.size() == 1 ? 0 : S->strat->pick(static_cast<int>(w.size()))];
    x->state = st::ready; x->obj = nullptr;
}
bool spurious() { quiet q; return managed() && S->strat->spurious(); }


namespace {
// persistent worker threads; a worker stuck in a deadlocked run is abandoned
struct worker {
    sem_t go{}; std::function<void()> job; std::thread th; bool stop{false};
    worker() {
        sem_init(&go, 0, 0);
        th = std::thread([this] {
            for (;;) { while (sem_wait(&go) != 0) {} job(); }
        });
        th.detach();
    }
};
std::vector<worker*>& pool() { static std::vector<worker*> p; return p; }
void pin() {
    static bool done = false;
    if (done) return;
    done = true;
    cpu_set_t all; CPU_ZERO(&all);
    if (sched_getaffinity(0, sizeof(all), &all) != 0) return;
    std::vector<int> c;
    for (int i = 0; i < CPU_SETSIZE; ++i) if (CPU_ISSET(i, &all)) c.push_back(i);
    if (c.size() < 2) return;
    char const* e = std::getenv("COOP_CPU");
    int k = e != nullptr ? std::atoi(e) : static_cast<int>(getpid());
    cpu_set_t one; CPU_ZERO(&one); CPU_SET(c[static_cast<std::size_t>(k) % c.size()], &one);
    sched_setaffinity(0, sizeof(one), &one);
}
} // namespace

result run(std::vector<std::function<void()>> const& bodies, strategy& strat, std::uint64_t max_steps) {
    pin();
    auto* s = new sched();  // leaked on deadlock: parked threads may still refer to it
    sem_init(&s->done, 0, 0);
    auto const* ms = std::getenv("COOP_STEPS"); s->strat = &strat; s->max_steps = ms ? std::strtoull(ms, nullptr, 10) : max_steps;
    for (std::size_t i = 0; i < bodies.size(); ++i) { s->t.push_back(std::make_unique<thr>()); sem_init(&s->t.back()->sem, 0, 0); }
    S = s;
    auto& pl = pool();
    while (pl.size() < bodies.size()) pl.push_back(new worker());
    auto* fin = new sem_t(); sem_init(fin, 0, 0);
    for (std::size_t i = 0; i < bodies.size(); ++i) {
        pl[i]->job = [i, &bodies, s, fin] {
            while (sem_wait(&s->t[i]->sem) != 0) {}
            me = static_cast<int>(i);
            bodies[i]();
            quiet q;
            s->t[i]->state = st::finished;
            schedule(false, true);
            me = -1;
            sem_post(fin);
        };
        sem_post(&pl[i]->go);
    }
    if (! bodies.empty()) {
        int first = bodies.size() == 1 ? 0 : strat.choose(static_cast<int>(bodies.size()), false);
        s->cur = first;
        sem_post(&s->t[first]->sem);
        while (sem_wait(&s->done) != 0) {}
    }
    result r{}; r.deadlock = s->dead; r.livelock = s->live; r.steps = s->steps;
    if (r.deadlock || r.livelock) {
        for (std::size_t i = 0; i < s->t.size(); ++i) if (s->t[i]->state != st::finished) r.who += std::to_string(i) + " ";
        pl.clear(); // abandon the workers, state leaked on purpose
        S = nullptr;
        return r;
    }
    for (std::size_t i = 0; i < bodies.size(); ++i) { while (sem_wait(fin) != 0) {} }
    S = nullptr;
    sem_destroy(fin); delete fin;
    delete s;
    return r;
}
} // namespace coop
