// Stateless model checker for C++ code: exploration of every sequence of
// choices (schedules, environment answers, inputs) within bounds.
#pragma once

#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <string_view>
#include <vector>

#include "mc_race.h"

namespace mc {

// ---------------------------------------------------------------- harness

enum class Tier { quick, thorough };

// One family of executions. `ncases` cases, each explored on its own:
// `run(c)` is executed once for every sequence of choices within `bound`.
struct Suite {
    std::string name;
    std::string what;
    std::size_t ncases = 1;
    std::function<void(std::size_t)> run;
    // The number of deviations from the default choices (schedule or
    // environment) that an execution may contain.
    std::function<int(std::size_t)> bound = [](std::size_t) { return 0; };
    // Into how many parts the choice tree of a case is split.
    std::size_t shards = 1;
    // Cases per unit of work.
    std::size_t block = 1;
    // Whether executions that reach an already explored state (equal
    // happens-before signature) are not branched again.
    bool hb_cache = false;
    // Human readable description of a case (for replay files, samples).
    std::function<std::string(std::size_t)> describe;
};

// Defined by each harness.
std::vector<Suite> make_suites(Tier tier);
extern const char *const harness_name;

// Called in the worker process before its first execution (optional).
void on_start(std::function<void()> f);

// A directory of this process, removed at the end of the run.
std::string scratch_dir();

// --------------------------------------------------- inside an execution

// A choice among 0..n-1; 0 is the default. A choice other than 0 costs
// `cost` deviations.
std::size_t choose(std::size_t n, int cost = 1);

// Reports that the property does not hold in this execution. `sig` names
// the kind of failure, independent of addresses and such.
[[noreturn]] void fail(std::string sig, std::string msg);

// Counters of the evidence.
void outcome(std::string_view s);  // an observable result of an execution
void outcome_hash(std::uint64_t h);
void state(std::uint64_t h);       // a distinct state that was visited
void transition(std::size_t n = 1);
void evaluations(std::size_t n);   // additional cases decided in this execution
void traces(std::size_t n = 1);    // executions of the real code compared with the model
void nontrivial(std::size_t n = 1);
void sample(std::string s);        // an example for the evidence

std::uint64_t hash(std::string_view s, std::uint64_t seed = 0) noexcept;
inline std::uint64_t mix(std::uint64_t a, std::uint64_t b) noexcept
{
    std::uint64_t x = a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15ull + (a << 6) + (a >> 2));
    x ^= x >> 31;
    x *= 0xBF58476D1CE4E5B9ull;
    x ^= x >> 29;
    return x;
}

std::string quote(std::string_view s);  // printable form

Tier tier();
bool replaying();

// The text on failure of a comparison.
#define MC_CHECK(cond, sig, msg)                                                                   \
    do {                                                                                           \
        if (!(cond)) ::mc::fail((sig), (msg));                                                     \
    } while (0)

// -------------------------------------------------------------- scheduler

// How the scheduler is used in the current case. Set these at the
// beginning of run(); they are reset to the defaults before each run.
struct Sched {
    bool branch = false;          // whether schedules are explored at all
    bool atomics = false;         // also loads and stores of atomics are points
    bool atomic_rmw = false;      // also read-modify-writes
    // Only atomics within this range are points, if it is not empty.
    const void *atomics_begin = nullptr, *atomics_end = nullptr;
    unsigned workers = 2;         // number of threads that execute tasks
    int policy = 0;               // default schedule: 0 current, then oldest; 1 current, then
                                  // youngest; 2 round robin
    std::size_t max_steps = 400000;
};
Sched &sched();

// A scheduling point before an operation on the object at `obj`.
void point(const void *obj, unsigned op = 0);
// Makes the operation on `obj` part of the state signature without being
// a scheduling point.
void touch(const void *obj, unsigned op = 0);
// Makes a step of the running fiber part of the state signature.
void mark(unsigned op);
// Blocks the running fiber until `pred` holds.
void block_until(std::function<bool()> pred, const void *obj, const char *what);
// Starts a fiber.
std::size_t spawn(std::function<void()> f, const char *what,
                  std::function<bool()> enabled = {});
bool fiber_done(std::size_t id);
std::size_t self();
std::size_t live_fibers();

}  // namespace mc
