// Internal interface between the runtime (rt.cpp) and the driver (driver.cpp).
#pragma once
#include "sim.hpp"
#include <csetjmp>

namespace sim {

enum Kind : uint8_t { K_PREEMPT, K_BLOCK, K_NOTIFY, K_FAULT, K_SPURIOUS, K_CHOICE, K_CLOCK, K_NKINDS };
struct Dev { uint8_t kind; uint8_t tid; uint16_t pad; uint32_t val; uint64_t key; };

enum Status : int { ST_RUNNING = 0, ST_OK, ST_VIOLATION, ST_INCONCLUSIVE };

constexpr size_t MAX_DEVS = 1 << 16;
constexpr size_t MAX_LOG = 1 << 19;
constexpr size_t MAX_COUNTERS = 96;
constexpr size_t MAX_STATES = 1 << 12;
constexpr size_t MAX_KNOWN = 16;

struct Result {                 // lives in memory shared between zygote and run
    volatile int status;
    char cls[96];
    char msg[8192];
    uint64_t hash, sched_hash;
    uint64_t steps, switches, preemptions, sim_ns;
    uint32_t threads;
    uint32_t ndevs; bool devs_overflow;
    uint32_t nlog;
    uint32_t ncounters;
    uint32_t nstates;
    uint32_t nknown;
    struct { char name[40]; uint64_t n; } counters[MAX_COUNTERS];
    char known[MAX_KNOWN][64];
    uint64_t states[MAX_STATES];
    Dev devs[MAX_DEVS];
    char log[MAX_LOG];
};

extern Result *result;

// execute `h->run(plan)` as simulated thread 0 (in a freshly forked process); never returns
[[noreturn]] void execute(Harness *h, const Plan &plan, const std::vector<Dev> *replay);

extern std::vector<std::string> *known_keys;

}
