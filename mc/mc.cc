// Runtime of the model checker: fibers, scheduler, explorer, worker processes.
#include "mc.h"
#include "mc_sync.h"
#ifdef MC_RACE
#include "race.h"
#else
#include "mc_race.h"
namespace mc::race {
inline void begin() {}
inline void end() {}
inline void spawned(std::size_t, std::size_t, const char *, std::size_t) {}
inline void joined(std::size_t) {}
inline void running(std::size_t) {}
}  // namespace mc::race
#endif

#include <cxxabi.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <unordered_map>
#include <unordered_set>

#if defined(__SANITIZE_ADDRESS__)
#define MC_ASAN 1
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#endif

namespace mc {
namespace {

// ------------------------------------------------------------ shared memory

constexpr std::size_t max_path = 1u << 15;
constexpr std::size_t max_workers = 64;
constexpr std::size_t max_hist = 1 << 16;

struct Slot {
    volatile std::uint64_t progress;
    std::uint64_t suite, unit_case, shard;
    std::uint64_t in_unit;  // an execution is (or was) under way
    std::uint64_t next_case, end_case;
    std::uint32_t depth;       // choices made by the current execution
    std::uint32_t prefix_len;  // of which these were prescribed
    std::uint16_t choice[max_path];
    std::uint16_t fanout[max_path];
    std::uint8_t cost[max_path];
    std::uint8_t pruned[max_path];
    std::uint64_t failed;
    std::uint64_t nhist;  // units that the process has started since its start
    std::uint32_t hist[max_hist];
    char sig[512];
    char msg[1 << 16];
};

struct Shared {
    std::uint64_t next_unit;
    std::uint64_t stop;
    std::uint64_t capped;
    Slot slots[max_workers];
};

Shared *shm;
Slot *slot;

// ------------------------------------------------------------------- stats

struct Stats {
    std::uint64_t executions = 0, evaluations = 0, transitions = 0, traces = 0, nontrivial = 0,
                  choice_points = 0, pruned = 0, max_depth = 0;
    std::unordered_set<std::uint64_t> outcomes, states;
    std::vector<std::string> samples;
};

Stats stats;
constexpr std::size_t max_set = 3u << 19;
constexpr std::size_t max_samples = 3;

Tier g_tier = Tier::quick;
bool g_replay = false;
Sched g_sched;
std::vector<Suite> g_suites;
std::string g_workdir;
std::vector<std::function<void()>> g_on_start;

// ------------------------------------------------------------------ fibers

constexpr std::size_t stack_size = 1u << 20;

struct Fiber {
    std::size_t id = 0;
    void *sp = nullptr;
    char *stack = nullptr;
    bool done = false;
    std::function<void()> fn;
    std::function<bool()> pred;  // enabled condition; empty: always
    const char *what = "";
    std::uint64_t hash = 0;
    std::uint64_t eh[2]{};
    void *fake_stack = nullptr;
    bool host = false;
    int ignoring = 0;
    std::vector<char> tls;  // its thread-local variables while it does not run
};

std::vector<std::unique_ptr<Fiber>> fibers;  // index = id - 1
Fiber host_fiber;
Fiber *cur = nullptr;
std::vector<char *> free_stacks;
const void *host_stack_bottom;
std::size_t host_stack_size;
bool exec_running = false;
std::size_t steps = 0;
std::unordered_map<const void *, std::uint64_t> obj_hash;
struct Cond_waiter {
    std::size_t fiber;
    bool signalled;
};
std::map<const void *, std::vector<Cond_waiter>> cond_waiters;

// explorer state of the current execution
int budget = 0;        // deviations left
bool branching = true; // whether new alternatives are of interest
const Suite *cur_suite = nullptr;
std::unordered_map<std::uint64_t, int> visited;

extern "C" void mc_switch(void **save_sp, void *load_sp);
asm(R"(
.text
.globl mc_switch
.type mc_switch,@function
mc_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size mc_switch,.-mc_switch
)");

void switch_to(Fiber *to, bool dying = false)
{
    Fiber *from = cur;
    if (from == to) return;
    auto *eh = reinterpret_cast<std::uint64_t *>(abi::__cxa_get_globals());
    from->eh[0] = eh[0];
    from->eh[1] = eh[1];
    eh[0] = to->eh[0];
    eh[1] = to->eh[1];
    cur = to;
#ifdef MC_RACE
    from->ignoring = race::ignoring;
    race::ignoring = to->ignoring;
    race::running(to->host ? 0 : to->id);
    race::switch_tls(from->tls, to->tls);
#endif
#ifdef MC_ASAN
    __sanitizer_start_switch_fiber(dying ? nullptr : &from->fake_stack,
                                   to->host ? host_stack_bottom : to->stack,
                                   to->host ? host_stack_size : stack_size);
#endif
    mc_switch(&from->sp, to->sp);
#ifdef MC_ASAN
    const void *b;
    std::size_t s;
    __sanitizer_finish_switch_fiber(from->fake_stack, &b, &s);
#endif
    (void)dying;
}

void pick_next();

extern "C" void mc_fiber_main()
{
#ifdef MC_ASAN
    const void *b;
    std::size_t s;
    __sanitizer_finish_switch_fiber(nullptr, &b, &s);
    if (host_stack_bottom == nullptr) {
        host_stack_bottom = b;
        host_stack_size = s;
    }
#endif
    Fiber *f = cur;
    try {
        f->fn();
    }
    catch (const std::exception &e) {
        fail(std::string{"uncaught exception in "} + f->what, e.what());
    }
    catch (...) {
        fail(std::string{"uncaught exception in "} + f->what, "unknown exception");
    }
    f->fn = {};
    f->done = true;
    if (f->id == 1) {
        switch_to(&host_fiber, true);
    }
    else {
        pick_next();
    }
    std::abort();
}

extern "C" void mc_fiber_entry();
asm(R"(
.text
.globl mc_fiber_entry
.type mc_fiber_entry,@function
mc_fiber_entry:
    xorl %ebp, %ebp
    call mc_fiber_main
    ud2
.size mc_fiber_entry,.-mc_fiber_entry
)");

char *get_stack()
{
    if (!free_stacks.empty()) {
        char *s = free_stacks.back();
        free_stacks.pop_back();
#ifdef MC_ASAN
        __asan_unpoison_memory_region(s, stack_size);
#endif
        return s;
    }
    char *p = static_cast<char *>(::mmap(nullptr, stack_size + 4096, PROT_READ | PROT_WRITE,
                                         MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (p == MAP_FAILED) std::abort();
    ::mprotect(p, 4096, PROT_NONE);
    return p + 4096;
}

std::uint64_t state_signature()
{
    std::uint64_t h = 0;
    for (auto &f : fibers) h += mix(f->done ? 1 : 0, f->hash);
    return h;
}

[[noreturn]] void finish_failed(const std::string &sig, const std::string &msg);

// ------------------------------------------------------------------ choices

std::size_t choose_impl(std::size_t n, int cost, std::uint64_t kind)
{
    if (n <= 1) return 0;
    slot->progress = slot->progress + 1;
    std::uint32_t i = slot->depth;
    if (i >= max_path) fail("path too long", "more than the supported number of choices");
    std::size_t c = 0;
    if (i < slot->prefix_len) {
        c = slot->choice[i];
        if (c >= n || slot->fanout[i] != (n > 65535 ? 65535 : n)) {
            if (g_replay && c < n) { /* fanout is not stored in replay files */ }
            else
                fail("nondeterminism",
                     "replaying a prefix of choices met a different choice: expected fan-out " +
                         std::to_string(slot->fanout[i]) + " got " + std::to_string(n) +
                         " at choice " + std::to_string(i));
        }
        if (c != 0) budget -= cost;
        slot->fanout[i] = static_cast<std::uint16_t>(n);
        slot->cost[i] = static_cast<std::uint8_t>(cost);
    }
    else {
        ++stats.choice_points;
        bool prune = !branching;
        if (cur_suite != nullptr && cur_suite->hb_cache && branching) {
            std::uint64_t key = mix(mix(state_signature(), cur->hash), kind * 64 + n);
            auto r = visited.emplace(key, budget);
            if (!r.second) {
                if (r.first->second >= budget) {
                    prune = true;
                    branching = false;
                    ++stats.pruned;
                }
                else
                    r.first->second = budget;
            }
            else
                state(key);
        }
        else
            state(mix(mix(state_signature(), cur->hash), kind * 64 + n));
        slot->choice[i] = 0;
        slot->fanout[i] = static_cast<std::uint16_t>(n);
        slot->cost[i] = static_cast<std::uint8_t>(cost);
        slot->pruned[i] = prune;
    }
    slot->depth = i + 1;
    // Answers of the environment are part of the state; the scheduler's own
    // choices show in the order of the operations.
    if (cur != nullptr && kind == 2) cur->hash = mix(cur->hash, 0x1000 + c);
    return c;
}

// ---------------------------------------------------------------- scheduler

[[noreturn]] void deadlock()
{
    std::string m = "no thread can run:";
    for (auto &f : fibers)
        if (!f->done) m += " [" + std::to_string(f->id) + ":" + f->what + "]";
    fail("deadlock", m);
}

void pick_next()
{
    slot->progress = slot->progress + 1;
    if (++steps > g_sched.max_steps) fail("livelock", "more steps than any terminating execution");
    ++stats.transitions;
    static std::vector<std::size_t> en;  // enabled ids, in the order of preference
    en.clear();
    {
        race::Ignore ig;
        for (auto &f : fibers)
            if (!f->done && (!f->pred || f->pred())) en.push_back(f->id);
    }
    if (en.empty()) deadlock();
    std::size_t me = cur->id;
    auto first = [&](std::size_t id) {
        auto it = std::find(en.begin(), en.end(), id);
        if (it != en.end()) std::rotate(en.begin(), it, it + 1);
    };
    switch (g_sched.policy) {
    case 0:
        first(me);
        break;
    case 1:
        std::reverse(en.begin(), en.end());
        first(me);
        break;
    default: {
        auto it = std::upper_bound(en.begin(), en.end(), me);
        std::rotate(en.begin(), it, en.end());
        break;
    }
    }
    std::size_t c = 0;
    if (g_sched.branch && en.size() > 1) c = choose_impl(en.size(), 1, 1);
    std::size_t id = en[c];
    Fiber *to = fibers[id - 1].get();
    to->pred = {};
    if (to != cur) switch_to(to, cur->done);
}

std::uint64_t &object(const void *obj)
{
    auto r = obj_hash.emplace(obj, 0);
    if (r.second) r.first->second = mix(cur->hash, 0x51ED270B0F2A1D7Full);
    return r.first->second;
}

}  // namespace

void touch(const void *obj, unsigned op)
{
    if (!exec_running || cur == nullptr || cur->host) return;
    auto &o = object(obj);
    std::uint64_t h = mix(mix(cur->hash, o), op);
    cur->hash = h;
    o = h;
}

void point(const void *obj, unsigned op)
{
    if (!exec_running || cur == nullptr || cur->host) return;
    if (g_sched.branch) pick_next();
    touch(obj, op);
}

void mark(unsigned op)
{
    if (exec_running && cur != nullptr && !cur->host) cur->hash = mix(cur->hash, op);
}

void block_until(std::function<bool()> pred, const void *obj, const char *what)
{
    if (!exec_running || cur == nullptr || cur->host) {
        if (!pred()) std::abort();
        return;
    }
    // A scheduling point even if the condition holds already.
    if (!pred() || g_sched.branch) {
        const char *w = cur->what;
        cur->pred = std::move(pred);
        cur->what = what;
        pick_next();
        cur->what = w;
    }
    touch(obj, 7);
}

std::size_t spawn(std::function<void()> f, const char *what, std::function<bool()> enabled)
{
    auto nf = std::make_unique<Fiber>();
    nf->id = fibers.size() + 1;
    nf->fn = std::move(f);
    nf->what = what;
    nf->pred = std::move(enabled);
    nf->stack = get_stack();
    if (cur != nullptr) {
        cur->hash = mix(cur->hash, 0xF00D);
        nf->hash = mix(cur->hash, 0xBEEF);
    }
    race::spawned(exec_running && cur != nullptr && !cur->host ? cur->id : 0, nf->id, nf->stack, stack_size);
    auto **sp = reinterpret_cast<void **>(nf->stack + stack_size - 64);
    *--sp = nullptr;
    *--sp = nullptr;
    *--sp = reinterpret_cast<void *>(&mc_fiber_entry);
    for (int i = 0; i < 6; ++i) *--sp = nullptr;
    nf->sp = sp;
    std::size_t id = nf->id;
    fibers.push_back(std::move(nf));
    return id;
}

bool fiber_done(std::size_t id) { return fibers[id - 1]->done; }

std::size_t self() { return cur == nullptr ? 0 : cur->id; }

std::size_t live_fibers()
{
    std::size_t n = 0;
    for (auto &f : fibers) n += !f->done;
    return n;
}

namespace impl {

void mutex_lock(std::uint64_t *m)
{
    if (cur == nullptr || cur->host) {
        m[0] = 1;
        return;
    }
    if (m[0] == cur->id) fail("deadlock", "a thread locks a mutex that it holds already");
    block_until([m] { return m[0] == 0; }, m, "lock");
    m[0] = cur->id;
    race::acquire(m);
}

bool mutex_trylock(std::uint64_t *m)
{
    point(m, 3);
    if (m[0] != 0) return false;
    m[0] = cur == nullptr ? 1 : cur->id;
    race::acquire(m);
    return true;
}

void mutex_unlock(std::uint64_t *m)
{
    if (cur != nullptr && !cur->host && m[0] != cur->id)
        fail("bad unlock", "a thread unlocks a mutex that it does not hold");
    touch(m, 4);
    race::release(m);
    m[0] = 0;
    // A point after the release lets others in between this and what follows.
    if (exec_running && cur != nullptr && !cur->host && g_sched.branch) pick_next();
}

void cond_wait(const void *c, std::uint64_t *m)
{
    auto id = cur->id;
    // What the predicate saw might change before the wait begins, unless
    // it only changes under the mutex.
    if (g_sched.atomics) point(c, 5);
    touch(c, 5);
    touch(m, 4);
    race::release(m);
    m[0] = 0;
    cond_waiters[c].push_back({id, false});
    auto find = [c, id]() -> Cond_waiter * {
        for (auto &w : cond_waiters[c])
            if (w.fiber == id) return &w;
        return nullptr;
    };
    const char *w = cur->what;
    cur->pred = [find, m] { return find()->signalled && m[0] == 0; };
    cur->what = "wait";
    pick_next();
    cur->what = w;
    auto &v = cond_waiters[c];
    v.erase(v.begin() + (find() - v.data()));
    m[0] = id;
    race::acquire(m);
    touch(c, 5);
    touch(m, 7);
}

bool cond_timed_wait(const void *c, std::uint64_t *m)
{
    // May time out at any moment; by default only when nothing else runs.
    auto id = cur->id;
    race::release(m);
    m[0] = 0;
    touch(m, 4);
    cond_waiters[c].push_back({id, false});
    auto find = [c, id]() -> Cond_waiter * {
        for (auto &w : cond_waiters[c])
            if (w.fiber == id) return &w;
        return nullptr;
    };
    cur->pred = [m] { return m[0] == 0; };
    pick_next();
    bool s = find()->signalled;
    auto &v = cond_waiters[c];
    v.erase(v.begin() + (find() - v.data()));
    m[0] = id;
    race::acquire(m);
    touch(m, 7);
    return s;
}

void cond_signal(const void *c, bool all)
{
    if (cur == nullptr || cur->host) return;
    point(c, 6);
    auto it = cond_waiters.find(c);
    if (it == cond_waiters.end()) return;
    std::vector<Cond_waiter *> w;
    for (auto &x : it->second)
        if (!x.signalled) w.push_back(&x);
    if (w.empty()) return;
    if (all) {
        for (auto *x : w) x->signalled = true;
    }
    else {
        std::size_t k = g_sched.branch ? choose(w.size(), 1) : 0;
        w[k]->signalled = true;
    }
}

void atomic_point(const void *a, unsigned op)
{
    if (!exec_running || cur == nullptr || cur->host) return;
    bool p = op == 2 ? g_sched.atomic_rmw : g_sched.atomics;
    if (g_sched.atomics_end != nullptr && (a < g_sched.atomics_begin || a >= g_sched.atomics_end)) p = false;
    if (p)
        point(a, op);
    // Read-modify-writes are part of the happens-before relation only
    // where they are points: otherwise nothing but counters use them.
}

void thread_join(std::size_t id)
{
    block_until([id] { return fiber_done(id); }, fibers[id - 1].get(), "join");
    touch(fibers[id - 1].get(), 8);
    race::joined(id);
    cur->hash = mix(cur->hash, fibers[id - 1]->hash);
}

}  // namespace impl

// ------------------------------------------------------------------ harness

std::size_t choose(std::size_t n, int cost)
{
    // No alternatives where the bound does not allow a deviation: these
    // would only lengthen the path.
    return choose_impl(n, cost, 2);
}

void fail(std::string sig, std::string msg) { finish_failed(sig, msg); }

void outcome_hash(std::uint64_t h)
{
    if (stats.outcomes.size() < max_set) stats.outcomes.insert(h);
}
void outcome(std::string_view s) { outcome_hash(hash(s)); }
void state(std::uint64_t h)
{
    if (stats.states.size() < max_set) stats.states.insert(h);
}
void transition(std::size_t n)
{
    stats.transitions += n;
    slot->progress = slot->progress + 1;
}
void evaluations(std::size_t n)
{
    stats.evaluations += n;
    slot->progress = slot->progress + 1;
}
void traces(std::size_t n) { stats.traces += n; }
void nontrivial(std::size_t n) { stats.nontrivial += n; }
void sample(std::string s)
{
    if (stats.samples.size() < max_samples) stats.samples.push_back(std::move(s));
}
Tier tier() { return g_tier; }
bool replaying() { return g_replay; }
Sched &sched() { return g_sched; }
void on_start(std::function<void()> f) { g_on_start.push_back(std::move(f)); }

std::uint64_t hash(std::string_view s, std::uint64_t seed) noexcept
{
    std::uint64_t h = 0xcbf29ce484222325ull ^ seed;
    for (unsigned char c : s) {
        h ^= c;
        h *= 0x100000001b3ull;
    }
    return mix(h, s.size());
}

std::string quote(std::string_view s)
{
    std::string o = "\"";
    char b[8];
    for (unsigned char c : s) {
        if (c == '\n') o += "\\n";
        else if (c == '\r') o += "\\r";
        else if (c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); }
        else if (c < 32 || c > 126) {
            std::snprintf(b, sizeof b, "\\x%02x", c);
            o += b;
        }
        else o += static_cast<char>(c);
    }
    return o + "\"";
}

namespace {

// ---------------------------------------------------------------- executions

void write_stats();

[[noreturn]] void finish_failed(const std::string &sig, const std::string &msg)
{
    std::snprintf(slot->sig, sizeof slot->sig, "%s", sig.c_str());
    std::snprintf(slot->msg, sizeof slot->msg, "%s", msg.c_str());
    slot->failed = 1;
    write_stats();
    ::_exit(77);
}

// Runs one execution with the prescribed prefix of choices.
void execute(const Suite &su, std::size_t c, int bound)
{
    for (auto &f : fibers)
        if (f->stack != nullptr) free_stacks.push_back(f->stack);
    fibers.clear();
    obj_hash.clear();
    cond_waiters.clear();
    steps = 0;
    g_sched = Sched{};
    slot->depth = 0;
    budget = bound;
    branching = true;
    cur_suite = &su;
    host_fiber.host = true;
    cur = &host_fiber;
    slot->in_unit = 1;
    race::begin();
    spawn([&su, c] { su.run(c); }, "main");
    fibers[0]->hash = mix(hash(su.name), c);
    exec_running = true;
    switch_to(fibers[0].get());
    exec_running = false;
    race::end();
    std::size_t live = live_fibers();
    if (live != 0) {
        std::string m;
        for (auto &f : fibers)
            if (!f->done) m += std::string{" "} + f->what;
        fail("leftover threads", "threads outlive the execution:" + m);
    }
    if (slot->depth < slot->prefix_len)
        fail("nondeterminism", "the execution ended before its prescribed choices were made");
    ++stats.executions;
    stats.max_depth = std::max<std::uint64_t>(stats.max_depth, slot->depth);
    slot->in_unit = 0;
    slot->progress = slot->progress + 1;
}

// Advances slot->choice to the next path; false when there is none.
bool backtrack(int bound, std::size_t shards, std::size_t shard)
{
    std::uint32_t n = slot->depth;
    // deviations before each position
    static std::vector<int> dev;
    static std::vector<char> nz;
    dev.assign(n + 1, 0);
    nz.assign(n + 1, 0);
    for (std::uint32_t i = 0; i < n; ++i) {
        dev[i + 1] = dev[i] + (slot->choice[i] != 0 ? slot->cost[i] : 0);
        nz[i + 1] = static_cast<char>(nz[i] || slot->choice[i] != 0);
    }
    for (std::uint32_t i = n; i-- > 0;) {
        if (slot->pruned[i]) continue;
        if (dev[i] + slot->cost[i] > bound) continue;
        for (std::size_t a = slot->choice[i] + 1u; a < slot->fanout[i]; ++a) {
            if (!nz[i] && shards > 1 && mix(i, a) % shards != shard) continue;
            slot->choice[i] = static_cast<std::uint16_t>(a);
            slot->prefix_len = i + 1;
            return true;
        }
    }
    return false;
}

void explore_case(const Suite &su, std::size_t c, std::size_t shard, bool resume)
{
    int bound = su.bound(c);
    slot->unit_case = c;
    slot->shard = shard;
    if (!resume) {
        visited.clear();
        slot->prefix_len = 0;
        slot->depth = 0;
        execute(su, c, bound);
    }
    while ((!shm->stop || g_replay) && backtrack(bound, su.shards, shard)) execute(su, c, bound);
}

struct Unit {
    std::size_t suite, first, last, shard;
};
std::vector<std::uint64_t> unit_base;  // first unit of each suite

Unit unit_of(std::uint64_t u)
{
    std::size_t s = 0;
    while (s + 1 < unit_base.size() && unit_base[s + 1] <= u) ++s;
    std::uint64_t k = u - unit_base[s];
    const Suite &su = g_suites[s];
    std::size_t shard = k % su.shards;
    std::size_t b = k / su.shards;
    return {s, b * su.block, std::min((b + 1) * su.block, su.ncases), shard};
}

std::string stats_path;

void put(std::ofstream &o, std::uint64_t v) { o.write(reinterpret_cast<char *>(&v), 8); }
std::uint64_t get(std::ifstream &i)
{
    std::uint64_t v = 0;
    i.read(reinterpret_cast<char *>(&v), 8);
    return v;
}

void write_stats()
{
    if (stats_path.empty()) return;
    std::ofstream o{stats_path, std::ios::binary};
    for (auto v : {stats.executions, stats.evaluations, stats.transitions, stats.traces,
                   stats.nontrivial, stats.choice_points, stats.pruned, stats.max_depth})
        put(o, v);
    put(o, stats.outcomes.size());
    for (auto h : stats.outcomes) put(o, h);
    put(o, stats.states.size());
    for (auto h : stats.states) put(o, h);
    put(o, stats.samples.size());
    for (auto &s : stats.samples) {
        put(o, s.size());
        o.write(s.data(), static_cast<std::streamsize>(s.size()));
    }
}

void read_stats(const std::string &p)
{
    std::ifstream i{p, std::ios::binary};
    if (!i) return;
    stats.executions += get(i);
    stats.evaluations += get(i);
    stats.transitions += get(i);
    stats.traces += get(i);
    stats.nontrivial += get(i);
    stats.choice_points += get(i);
    stats.pruned += get(i);
    stats.max_depth = std::max(stats.max_depth, get(i));
    for (auto n = get(i); n > 0; --n) stats.outcomes.insert(get(i));
    for (auto n = get(i); n > 0; --n) stats.states.insert(get(i));
    for (auto n = get(i); n > 0; --n) {
        std::string s(get(i), '\0');
        i.read(s.data(), static_cast<std::streamsize>(s.size()));
        stats.samples.push_back(s);
    }
}

[[noreturn]] void worker(std::size_t w, int generation, std::uint64_t total, bool resume)
{
    slot = &shm->slots[w];
    stats = {};
    stats_path = g_workdir + "/stats-" + std::to_string(w) + "-" + std::to_string(generation);
    std::string err = g_workdir + "/stderr-" + std::to_string(w);
    int fd = ::open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    ::dup2(fd, 2);
    ::close(fd);
    // What a resumed process ran before cannot be run again.
    slot->nhist = resume ? max_hist : 0;
    for (auto &f : g_on_start) f();
    if (resume) {
        // The previous process of this slot ended in an execution.
        const Suite &su = g_suites[slot->suite];
        explore_case(su, slot->unit_case, slot->shard, true);
        for (std::size_t c = slot->next_case; c < slot->end_case && !shm->stop; ++c) {
            slot->next_case = c + 1;
            explore_case(su, c, slot->shard, false);
        }
    }
    while (!shm->stop) {
        std::uint64_t u = __atomic_fetch_add(&shm->next_unit, 1, __ATOMIC_SEQ_CST);
        if (u >= total) break;
        Unit un = unit_of(u);
        slot->suite = un.suite;
        slot->end_case = un.last;
        if (slot->nhist < max_hist) slot->hist[slot->nhist++] = static_cast<std::uint32_t>(u);
        const Suite &su = g_suites[un.suite];
        for (std::size_t c = un.first; c < un.last && !shm->stop; ++c) {
            slot->next_case = c + 1;
            explore_case(su, c, un.shard, false);
        }
    }
    write_stats();
    ::_exit(0);
}

}  // namespace

std::string scratch_dir()
{
    std::string d = g_workdir + "/scratch-" + std::to_string(::getpid());
    ::mkdir(d.c_str(), 0755);
    return d;
}

namespace {

struct Failure {
    std::string suite, sig, msg, desc;
    std::size_t ncase = 0;
    std::vector<unsigned> choices;
    bool known = false;
    bool confirmed = false;
    std::vector<std::uint32_t> history;  // units to run for the failure to show
};

std::string read_file(const std::string &p)
{
    std::ifstream i{p, std::ios::binary};
    std::stringstream s;
    s << i.rdbuf();
    return s.str();
}

// Names the failure shown by a sanitizer report.
std::string crash_sig(const std::string &err, int status)
{
    auto p = err.find("SUMMARY: ");
    if (p != std::string::npos) {
        std::string l = err.substr(p + 9, err.find('\n', p) - p - 9);
        // "AddressSanitizer: kind file:line in function"
        std::string out;
        std::istringstream is{l};
        std::string t, kind, fn;
        is >> t >> kind;
        auto q = l.find(" in ");
        if (q != std::string::npos) fn = l.substr(q + 4);
        fn = fn.substr(0, fn.find('('));
        return "memory error: " + kind + (fn.empty() ? "" : " in " + fn);
    }
    p = err.find("terminate called");
    if (p != std::string::npos) return "std::terminate";
    p = err.find("Assertion");
    if (p != std::string::npos) return "assertion failure";
    if (WIFSIGNALED(status)) return std::string{"signal "} + std::to_string(WTERMSIG(status));
    return "exit status " + std::to_string(WEXITSTATUS(status));
}

Failure failure_of(Slot &s, std::size_t w, int status, bool hang)
{
    Failure f;
    const Suite &su = g_suites[s.suite];
    f.suite = su.name;
    f.ncase = s.unit_case;
    f.choices.assign(s.choice, s.choice + s.depth);
    while (!f.choices.empty() && f.choices.back() == 0) f.choices.pop_back();
    if (su.describe) f.desc = su.describe(f.ncase);
    if (s.failed) {
        f.sig = s.sig;
        f.msg = s.msg;
    }
    else {
        std::string err = read_file(g_workdir + "/stderr-" + std::to_string(w));
        f.sig = hang ? "hang" : crash_sig(err, status);
        f.msg = hang ? "an operation does not terminate" : err.substr(0, 6000);
    }
    return f;
}

std::string json(std::string_view s)
{
    std::string o = "\"";
    char b[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); }
        else if (c < 32 || c > 126) {
            std::snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        }
        else o += static_cast<char>(c);
    }
    return o + "\"";
}

// Runs one recorded execution in a process of its own; returns the failure
// signature, or "" if it passes.
std::string replay_in(unsigned secs, std::string *msg, const std::function<void(Slot *)> &run)
{
    std::size_t w = max_workers - 1;
    Slot *s = &shm->slots[w];
    s->failed = 0;
    s->depth = 0;
    s->nhist = max_hist;
    pid_t pid = ::fork();
    if (pid == 0) {
        slot = s;
        g_replay = true;
        stats = {};
        std::string err = g_workdir + "/stderr-" + std::to_string(w);
        int fd = ::open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        ::dup2(fd, 2);
        for (auto &f : g_on_start) f();
        stats_path.clear();
        run(s);
        ::_exit(0);
    }
    int status = 0;
    for (unsigned t = 0;; ++t) {
        if (::waitpid(pid, &status, WNOHANG) == pid) break;
        if (t > secs * 100) {
            ::kill(pid, SIGKILL);
            ::waitpid(pid, &status, 0);
            if (msg) *msg = "an operation does not terminate";
            return "hang";
        }
        ::usleep(10000);
    }
    if (WIFEXITED(status) && WEXITSTATUS(status) == 0) return "";
    Failure f = failure_of(*s, w, status, false);
    if (msg) *msg = f.msg;
    return f.sig;
}

std::string replay_once(std::size_t su, std::size_t c, const std::vector<unsigned> &ch,
                        unsigned secs, std::string *msg)
{
    return replay_in(secs, msg, [&](Slot *s) {
        s->suite = su;
        s->unit_case = c;
        s->prefix_len = static_cast<std::uint32_t>(ch.size());
        for (std::size_t i = 0; i < ch.size(); ++i) {
            s->choice[i] = static_cast<std::uint16_t>(ch[i]);
            s->fanout[i] = 0;
            s->pruned[i] = 0;
        }
        execute(g_suites[su], c, 1 << 20);
    });
}

// Runs whole units in a process of its own. Exploration is deterministic, so
// this repeats failures that need what earlier executions left behind in the
// process, such as static variables.
std::string replay_units(const std::vector<std::uint32_t> &units, unsigned secs, std::string *msg)
{
    std::string sig = replay_in(secs, msg, [&](Slot *s) {
        for (auto u : units) {
            Unit un = unit_of(u);
            s->suite = un.suite;
            for (std::size_t c = un.first; c < un.last; ++c) explore_case(g_suites[un.suite], c, un.shard, false);
        }
    });
    // Out of time.
    return sig == "hang" ? "" : sig;
}

std::size_t suite_index(const std::string &n)
{
    for (std::size_t i = 0; i < g_suites.size(); ++i)
        if (g_suites[i].name == n) return i;
    std::fprintf(stderr, "no such suite: %s\n", n.c_str());
    std::exit(2);
}

double now()
{
    timespec t{};
    ::clock_gettime(CLOCK_MONOTONIC, &t);
    return static_cast<double>(t.tv_sec) + 1e-9 * static_cast<double>(t.tv_nsec);
}

}  // namespace

int run_main(int argc, char **argv)
{
    std::string out = "/dev/stdout", only, prefix, replay_suite, choices, history;
    std::size_t replay_case = 0, nworkers = std::thread::hardware_concurrency() == 0
                                                ? 4
                                                : static_cast<std::size_t>(::sysconf(_SC_NPROCESSORS_ONLN));
    std::vector<std::pair<std::string, std::string>> known;  // sig prefix, desc substring
    double cap = 600;
    std::size_t max_failures = 4;
    bool list = false;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&] {
            if (i + 1 >= argc) std::exit(2);
            return std::string{argv[++i]};
        };
        if (a == "--tier") g_tier = val() == "thorough" ? Tier::thorough : Tier::quick;
        else if (a == "--out") out = val();
        else if (a == "--suite") only = val();
        else if (a == "--prefix") prefix = val();
        else if (a == "--workers") nworkers = std::stoul(val());
        else if (a == "--cap") cap = std::stod(val());
        else if (a == "--known") {
            std::ifstream k{val()};
            std::string l;
            while (std::getline(k, l)) {
                auto t = l.find('\t');
                if (t != std::string::npos) known.emplace_back(l.substr(0, t), l.substr(t + 1));
            }
        }
        else if (a == "--history") history = val();
        else if (a == "--max-failures") max_failures = std::stoul(val());
        else if (a == "--list") list = true;
        else if (a == "--replay") {
            replay_suite = val();
            replay_case = std::stoul(val());
            choices = val();
        }
        else {
            std::fprintf(stderr, "unknown argument %s\n", a.c_str());
            return 2;
        }
    }
    nworkers = std::max<std::size_t>(1, std::min(nworkers, max_workers - 2));
    shm = static_cast<Shared *>(::mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                                       MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    slot = &shm->slots[max_workers - 2];
    g_suites = make_suites(g_tier);
#ifdef MC_RACE
    // Races show in the order of events of most schedules, so that fewer
    // deviations do.
    for (auto &s : g_suites) {
        s.name = "C27/" + s.name;
        s.what += ", for data races";
        if (g_tier == Tier::quick) s.bound = [b = s.bound](std::size_t c) { return std::max(0, b(c) - 1); };
    }
#endif
    if (list) {
        for (auto &s : g_suites)
            std::printf("%s: %zu cases, %s\n", s.name.c_str(), s.ncases, s.what.c_str());
        return 0;
    }
    char tmpl[] = "/tmp/mc-XXXXXX";
    g_workdir = ::mkdtemp(tmpl);
    ::chmod(g_workdir.c_str(), 0711);
    auto cleanup = [&] {
        std::error_code ec;
        namespace fs = std::filesystem;
        for (auto &d : fs::directory_iterator{g_workdir, ec}) {
            // Directories without permissions are removed too.
            if (d.is_directory(ec))
                for (auto i = fs::recursive_directory_iterator{d.path(), fs::directory_options::skip_permission_denied, ec}; i != fs::recursive_directory_iterator{}; i.increment(ec)) {
                    if (ec) break;
                    if (i->is_directory(ec) && !i->is_symlink(ec)) ::chmod(i->path().c_str(), 0700);
                }
        }
        fs::remove_all(g_workdir, ec);
    };

    std::vector<Suite> all = std::move(g_suites);
    g_suites.clear();
    for (auto &s : all)
        if ((only.empty() || s.name == only) && s.name.rfind(prefix, 0) == 0) g_suites.push_back(std::move(s));

    unit_base.clear();
    std::uint64_t total = 0;
    for (auto &s : g_suites) {
        unit_base.push_back(total);
        total += (s.ncases + s.block - 1) / s.block * s.shards;
    }

    if (!replay_suite.empty()) {
        std::vector<unsigned> ch;
        std::istringstream is{choices};
        std::string t;
        while (std::getline(is, t, ','))
            if (!t.empty()) ch.push_back(static_cast<unsigned>(std::stoul(t)));
        std::size_t si = suite_index(replay_suite);
        if (g_suites[si].describe)
            std::printf("case: %s\n", g_suites[si].describe(replay_case).c_str());
        std::string m;
        std::string sig;
        if (history.empty()) sig = replay_once(si, replay_case, ch, 120, &m);
        else {
            std::vector<std::uint32_t> units;
            std::ifstream i{history};
            for (std::uint32_t u = 0; i >> u;) units.push_back(u);
            sig = replay_units(units, 600, &m);
        }
        cleanup();
        if (sig.empty()) {
            std::printf("PASS\n");
            return 0;
        }
        std::printf("FAIL %s\n%s\n", sig.c_str(), m.c_str());
        return 1;
    }

    double t0 = now();
    std::vector<Failure> failures;
    std::ostringstream suites_json;
    bool capped_any = false;
    std::vector<pid_t> pids(nworkers, 0);
    std::vector<int> gen(nworkers, 0);
    std::vector<std::uint64_t> last(nworkers, ~0ull);
    std::vector<double> since(nworkers, now());
    auto start = [&](std::size_t w, bool resume) {
        ++gen[w];
        shm->slots[w].failed = 0;
        pid_t p = ::fork();
        if (p == 0) worker(w, gen[w], total, resume);
        pids[w] = p;
        since[w] = now();
    };
    std::fflush(stdout);
    for (std::size_t w = 0; w < nworkers; ++w) start(w, false);
    std::size_t alive = nworkers;
    std::map<std::string, std::size_t> seen;
    std::size_t fail_count = 0, histories = 0;
    while (alive > 0) {
        ::usleep(2000);
        for (std::size_t w = 0; w < nworkers; ++w) {
            if (pids[w] == 0) continue;
            Slot &s = shm->slots[w];
            int status = 0;
            bool hang = false;
            pid_t r = ::waitpid(pids[w], &status, WNOHANG);
            if (r == 0) {
                if (s.progress != last[w]) {
                    last[w] = s.progress;
                    since[w] = now();
                    continue;
                }
                else if (now() - since[w] > 45 && s.in_unit) {
                    ::kill(pids[w], SIGKILL);
                    ::waitpid(pids[w], &status, 0);
                    hang = true;
                }
                else if (now() - t0 > cap + 100 && shm->stop) {
                    ::kill(pids[w], SIGKILL);
                    ::waitpid(pids[w], &status, 0);
                    pids[w] = 0;
                    --alive;
                    continue;
                }
                else
                    continue;
            }
            pids[w] = 0;
            if (!hang && WIFEXITED(status) && WEXITSTATUS(status) == 0) {
                --alive;
                continue;
            }
            ++fail_count;
            Failure f = failure_of(s, w, status, hang);
            bool isknown = false;
            for (auto &k : known)
                if (f.sig.rfind(k.first, 0) == 0 &&
                    (k.second.empty() || f.desc.find(k.second) != std::string::npos))
                    isknown = true;
            f.known = isknown;
            std::string key = f.suite + "|" + f.sig;
            if (seen[key]++ < (isknown ? 1u : 2u)) {
                // Replay before report.
                std::string m;
                std::string sig = replay_once(s.suite, f.ncase, f.choices, hang ? 120 : 60, &m);
                f.confirmed = !sig.empty() && sig != "nondeterminism";
                if (!f.confirmed && !isknown && histories < 2 && !hang) {
                    // Does it need what was run before?
                    ++histories;
                    std::vector<std::uint32_t> all;
                    if (s.nhist < max_hist) all.assign(s.hist, s.hist + s.nhist);
                    std::vector<std::uint32_t> own;
                    if (!all.empty()) own = {all.back()};
                    for (auto &h : {own, all})
                        if (!f.confirmed && !h.empty()) {
                            sig = replay_units(h, static_cast<unsigned>(std::max(30., std::min(200., (cap + 60 - (now() - t0)) / 2))), &m);
                            f.confirmed = !sig.empty() && sig != "nondeterminism";
                            if (f.confirmed) f.history = h;
                        }
                }
                if (f.confirmed && sig != f.sig) f.msg += "\n(on replay: " + sig + ": " + m + ")";
                failures.push_back(f);
                if (!isknown && f.confirmed) shm->stop = 1;
            }
            std::size_t unknown = 0;
            for (auto &x : failures) unknown += !x.known;
            if (unknown >= max_failures || fail_count > 20000) shm->stop = 1;
            if (shm->stop)
                --alive;
            else
                start(w, true);
        }
        if (now() - t0 > cap && !shm->stop) {
            shm->stop = 1;
            shm->capped = 1;
            capped_any = true;
        }
    }
    stats = {};
    for (std::size_t w = 0; w < nworkers; ++w)
        for (int g = 1; g <= gen[w]; ++g)
            read_stats(g_workdir + "/stats-" + std::to_string(w) + "-" + std::to_string(g));
    if (stats.samples.size() > 12) {
        std::sort(stats.samples.begin(), stats.samples.end());
        stats.samples.erase(std::unique(stats.samples.begin(), stats.samples.end()), stats.samples.end());
        std::vector<std::string> s;
        for (std::size_t i = 0; i < 12 && !stats.samples.empty(); ++i)
            s.push_back(stats.samples[i * stats.samples.size() / 12]);
        stats.samples = s;
    }
    std::ofstream o{out};
    o << "{\"harness\":" << json(harness_name) << ",\"executions\":" << stats.executions
      << ",\"evaluations\":" << (stats.evaluations + stats.executions)
      << ",\"transitions\":" << stats.transitions << ",\"states\":" << stats.states.size()
      << ",\"traces\":" << stats.traces << ",\"nontrivial\":" << stats.nontrivial
      << ",\"outcomes\":" << stats.outcomes.size() << ",\"choice_points\":" << stats.choice_points
      << ",\"pruned\":" << stats.pruned << ",\"max_depth\":" << stats.max_depth
      << ",\"units\":" << total << ",\"capped\":" << (capped_any ? "true" : "false")
      << ",\"wall_s\":" << (now() - t0) << ",\"samples\":[";
    for (std::size_t i = 0; i < stats.samples.size(); ++i)
        o << (i ? "," : "") << json(stats.samples[i]);
    o << "],\"suites\":[";
    for (std::size_t i = 0; i < g_suites.size(); ++i)
        o << (i ? "," : "") << "{\"name\":" << json(g_suites[i].name)
          << ",\"what\":" << json(g_suites[i].what) << ",\"cases\":" << g_suites[i].ncases
          << ",\"bound\":" << g_suites[i].bound(0) << "}";
    o << "],\"failures\":[";
    for (std::size_t i = 0; i < failures.size(); ++i) {
        auto &f = failures[i];
        o << (i ? "," : "") << "{\"suite\":" << json(f.suite) << ",\"case\":" << f.ncase
          << ",\"sig\":" << json(f.sig) << ",\"msg\":" << json(f.msg)
          << ",\"desc\":" << json(f.desc) << ",\"known\":" << (f.known ? "true" : "false")
          << ",\"confirmed\":" << (f.confirmed ? "true" : "false") << ",\"choices\":[";
        for (std::size_t j = 0; j < f.choices.size(); ++j) o << (j ? "," : "") << f.choices[j];
        o << "],\"history\":[";
        for (std::size_t j = 0; j < f.history.size(); ++j) o << (j ? "," : "") << f.history[j];
        o << "]}";
    }
    o << "]}\n";
    o.close();
    cleanup();
    return 0;
}

}  // namespace mc

namespace mlio_verif {
std::size_t chunk_size = 0x200'0000;
std::size_t inflate_buffer_size = 0x8'0000;
std::size_t utf8_buffer_size = 0x200'0000;
std::size_t instance_buffer_size = 0x10'0000;
std::size_t parallel_cut_off = 10'000'000;
}  // namespace mlio_verif

extern "C" const char *__asan_default_options()
{
    return "detect_stack_use_after_return=0:detect_leaks=0:abort_on_error=0:exitcode=66:"
           "allocator_may_return_null=1:max_allocation_size_mb=4096:quarantine_size_mb=16:"
           "handle_segv=1:handle_abort=1:symbolize=1:malloc_context_size=6";
}

int main(int argc, char **argv) { return mc::run_main(argc, argv); }
