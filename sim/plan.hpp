#pragma once
#include <cstdint>
#include <map>
#include <string>
#include <utility>
#include <vector>
#include "rt.hpp"
struct Problem {
    std::vector<std::pair<int, int>> S, T;
    int tries = 1, max_no_improvement = 2, inner_rounds = 8, chainlength_patience = 1, threads = 1;
    double timeout = 1e6, max_beta = 1e300;
    int max_fill = 1 << 30, return_overlap = 0, skip_init = 0, verbose = 0, interactive = 0;
    uint64_t seed = 1;
    std::map<int, std::vector<int>> fixed, initial, restrict_;
};
enum { OP_FIND, OP_NEW, OP_MFIND, OP_QPASS, OP_SETINIT, OP_DEL };
struct Op {
    int kind = OP_FIND, problem = -1;
    uint64_t cancel_poll = 0, late_poll = 0;
    int64_t late_ns = 0, log_ns = 0, pre_ns = 0;
    bool clean = false;
    std::vector<int> order;
    int strategy = 0, chainlength_bound = 0, overlap_bound = 0;
    bool local_search = false, clear_first = true;
    double round_beta = 1e64;
    std::map<int, std::vector<int>> chains;
};
struct Caller { int problem = 0; std::vector<Op> ops; };
struct Plan { sim::Env env; std::vector<Problem> problems; std::vector<Caller> callers; };
struct OpResult {
    bool done = false, skipped = false, has_chains = false;
    int rc = -99;
    std::string exc, what;
    std::vector<std::vector<int>> chains;
    uint64_t polls = 0, cancelled = 0, messages = 0, msg_hash = 0;
    uint64_t step0 = 0, step1 = 0, alloc0 = 0, alloc1 = 0, thread0 = 0, thread1 = 0;
    int64_t mono0 = 0, mono1 = 0;
    std::vector<std::pair<uint64_t, int64_t>> poll_at;
    std::vector<uint64_t> pass_at;   // steps at which a pass announced itself (verbose=3 only)
};
struct Result { std::vector<std::vector<OpResult>> ops; };
void run_plan_body(void*);
