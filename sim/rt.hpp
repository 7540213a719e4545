// Simulator runtime for the C++ embedding engine.
// The engine is compiled with memory-access instrumentation (-fsanitize=thread) but linked against this
// runtime instead of a sanitizer: every access, lock, wait, thread creation, clock read and allocation of the
// engine is an event of a single-baton simulation whose only source of choice is one seeded generator.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>

namespace sim {

struct Rng {  // splitmix64
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a + 1)); }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
};

enum Mode { M_SEQ = 0, M_RANDOM = 1, M_PCT = 2, M_SYNC = 3, M_RR = 4, M_STARVE = 5, M_TRACE = 6 };

struct Env {
    int mode = M_SEQ;
    uint64_t sseed = 1;      // schedule generator
    unsigned param = 8;      // 2^-param preemption probability, PCT depth, quantum ...
    unsigned stall_pm = 0;   // per-mille chance that a switched-away task is stalled
    unsigned spurious_pm = 0;// per-mille chance of a spurious condition/futex wake-up
    std::vector<std::pair<uint64_t, int>> trace;  // M_TRACE: (step, task)
    int64_t ns_per_step = 10;
    int64_t read_cost_ns = 50;
    std::vector<std::pair<uint64_t, int64_t>> mono_adv;   // (step, ns): elapsed time passes (stall of everything)
    std::vector<std::pair<uint64_t, int64_t>> real_jump;  // (step, ns): wall clock steps
    int64_t real_drift_ppm = 0;
    std::vector<uint64_t> new_fail;     // allocation indices that fail
    std::vector<uint64_t> thread_fail;  // thread creation indices that fail
    std::vector<uint64_t> cancel_poll;  // poll indices (1-based) at which an interrupt is pending
    std::vector<uint64_t> cancel_step;  // interrupt arrives at this step, seen by the next poll
    unsigned garbage = 0;               // fill pattern of fresh memory
    uint64_t step_cap = 0;
};

enum Status { S_OK = 0, S_DEADLOCK, S_STEPCAP, S_RACE, S_MEMERR, S_TERMINATE, S_LEAKTHREAD, S_INTERNAL };
extern const char* status_name[];

struct Poll { uint64_t step; int64_t mono; };

struct Report {
    int status = S_OK;
    std::string detail;
    uint64_t steps = 0, switches = 0, allocs = 0, threads = 0, syncs = 0, clock_reads = 0;
    uint64_t fired_new = 0, fired_thread = 0, fired_cancel = 0, fired_jump = 0, fired_adv = 0, fired_stall = 0, fired_spurious = 0;
    int64_t mono = 0;
    uint64_t sched_hash = 0;
    int max_live = 1;
    std::vector<std::pair<uint64_t, int>> trace;
    std::vector<Poll> polls;
};

// Run `body(arg)` as simulated task 0 in this (freshly forked) process.
void run(const Env& env, void (*body)(void*), void* arg, Report& rep, void (*flush)(Report&));

// Called by the harness inside a run.
bool poll_cancelled();          // consumes a pending interrupt
uint64_t steps();
int64_t mono_now();
void event(uint64_t h);         // mixes a harness-visible event into the schedule hash
void advance(int64_t ns);       // elapsed time passes
uint64_t allocs();
uint64_t thread_creations();
struct harness {                // harness code inside an engine callback: not simulated
    bool saved;
    harness();
    ~harness();
};
void pause_faults(bool);        // harness code between operations is not subject to injected failures
[[noreturn]] void fail(int status, const std::string& detail);
}  // namespace sim
