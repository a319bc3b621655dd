// Deterministic simulator: public interface used by the harnesses (see DESIGN.md).
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- PRNG
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 0) : s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) { next(); next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t lo, int64_t hi) { return lo + int64_t(below(uint64_t(hi - lo + 1))); }   // inclusive
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    template<class C> auto & pick(C &c) { return c[below(c.size())]; }
};

// ---------------------------------------------------------------- per-run knobs
struct Knobs {
    uint64_t sched_seed = 0;
    uint32_t mem_gap = 0;        // mean gap between preemptions at plain memory accesses (0: never)
    uint32_t sync_pct = 20;      // percentage of synchronisation points that preempt
    uint32_t spurious_pm = 0;    // per mille of condition waits that get a spurious wake-up
    uint32_t pct_depth = 0;      // >0: PCT-style priority schedule with that many change points
    uint32_t pct_len = 20000;    // estimated length of a run, for PCT
    bool     race = true;        // happens-before race detection
    uint64_t step_cap = 40'000'000;
    uint64_t fair = 300'000;     // a thread that runs that long while others are runnable is descheduled
    uint32_t clock_jump_pm = 0;  // per mille of clock readings at which the wall clock is set forwards or backwards
};

// ---------------------------------------------------------------- a run
struct Plan {                       // explicit workload; what is generated from the seed and what is minimised
    Knobs knobs;
    std::vector<std::string> conf;  // never dropped by the minimiser
    std::vector<std::string> ops;   // the minimiser drops lines
};

struct Harness {
    const char *name;
    void (*init)();                              // once, before any run (in the zygote)
    void (*generate)(Plan &, Rng &, int tier);   // deterministic
    void (*run)(const Plan &);                   // executed as simulated thread 0
    double run_timeout_s;
};

extern "C" Harness *sim_harness();

// ---------------------------------------------------------------- services for harnesses (inside a run)
// Harness code runs on "harness memory": it neither disturbs the addresses the system under test sees,
// nor are its accesses scheduling points.
struct Quiet { Quiet(); ~Quiet(); Quiet(const Quiet&) = delete; };
// The opposite: a call into the system from harness code.
struct Sys { Sys(); ~Sys(); Sys(const Sys&) = delete; private: int saved_; };

// spawn a simulated thread (system-mode function)
int  spawn(std::function<void()> fn);
void join(int tid);
int  self();
int  num_threads();
uint64_t step();                     // global event sequence number
uint64_t now_ns();                   // simulated monotonic time
void yield_point();                  // an explicit scheduling point
bool others_blocked();               // true iff no thread but the caller can run
bool thread_done(int tid);
bool thread_blocked(int tid);
bool thread_waits_on_condition(int tid);
void sleep_ns(uint64_t);
uint32_t choose(uint32_t n, const char *what);   // scheduler decides; recorded, default 0
// fault decision: occurs with probability num/den; recorded, default "no fault"
bool fault(const char *kind, uint32_t num, uint32_t den);
uint64_t fault_total();              // faults injected so far

[[noreturn]] void violation(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void finish();           // end of run, property held
[[noreturn]] void inconclusive(const char *why);
extern bool cap_inconclusive;         // reaching the step limit is no violation: the workload itself may be that large
void log(const char *fmt, ...) __attribute__((format(printf, 1, 2)));  // event log; part of the run's hash
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2))); // event log only; never hashed
void count(const char *what, uint64_t n = 1);
void state(uint64_t h);               // a reached abstract state (for coverage evidence)
bool known(const char *key);          // listed in the known-findings file given on the command line?
void known_finding(const char *key);  // report it (once)

// expected crash containment: what to do when a thread dies; by default a violation "crash"
void on_deadlock(std::function<void()> f);   // called (on some thread, quiet) if no thread can run; default: violation("deadlock")

// seams for system calls and the heap: per-run probability of failure inside the window
struct SysFaults {
    uint32_t read_short_pm = 0, read_eintr_pm = 0, read_eio_pm = 0, open_pm = 0, read_slow_pm = 0;   // file input
    uint32_t mmap_pm = 0, ftruncate_pm = 0, memfd_pm = 0, alloc_pm = 0, malloc_pm = 0;   // per mille (alloc: operator new)
};
extern SysFaults sysfaults;
extern uint64_t input_slow_ns;            // simulated time lost in slow reads
extern uint64_t input_errors;             // opens and reads that were made to fail
extern thread_local int alloc_window;     // >0: allocation failures may be injected
uint64_t live_fds();                      // descriptors created by the system under test and not closed
struct MapInfo { uintptr_t lo, hi; };
const std::vector<MapInfo> & live_maps(); // mappings created by the system under test and not unmapped
void sys_reset_tracking();

}
