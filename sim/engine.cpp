// Executes one plan against the real embedding engine inside the simulator.
// This file (and every engine header) is compiled with memory-access instrumentation.
#include <memory>
#include <cmath>
#include <cstdarg>
#include <iostream>
#include <sstream>
#include <thread>
#include <typeinfo>
#include <cxxabi.h>
#include "find_embedding/find_embedding.hpp"
#include "rt.hpp"
#include "plan.hpp"

namespace fe = find_embedding;
using std::map;
using std::vector;

namespace {
class Sink : public fe::LocalInteraction {
  public:
    const Op* op = nullptr;
    OpResult* res = nullptr;

  private:
    void message(int level, const std::string& m, bool err) const {
        sim::harness h;
        if (!res) return;
        res->messages++;
        if (m.find("pass (") != std::string::npos) res->pass_at.push_back(sim::steps());
        for (char c : m) res->msg_hash = (res->msg_hash ^ (unsigned char)c) * 0x100000001b3ull;
        res->msg_hash += (unsigned)level + (err ? 77 : 0);
        if (op && op->log_ns) sim::advance(op->log_ns);
    }
    void displayOutputImpl(int l, const std::string& m) const override { message(l, m, false); }
    void displayErrorImpl(int l, const std::string& m) const override { message(l, m, true); }
    bool cancelledImpl() const override {
        sim::harness h;
        uint64_t k = 0;
        if (res) {
            k = ++res->polls;
            res->poll_at.push_back({sim::steps(), sim::mono_now()});
        }
        if (op && op->late_poll && k == op->late_poll) sim::advance(op->late_ns);
        bool c = sim::poll_cancelled();
        if (op && op->cancel_poll && k == op->cancel_poll) { c = true; }
        if (c && res) res->cancelled++;
        return c;
    }
};

struct Obj {
    std::shared_ptr<Sink> sink;
    graph::input_graph S, T;
    std::unique_ptr<fe::optional_parameters> params;
    std::unique_ptr<fe::pathfinder_wrapper> pf;
    int pass = 0;
};

void build(const Problem& p, graph::input_graph& S, graph::input_graph& T) {
    for (auto& e : p.S) S.push_back(e.first, e.second);
    for (auto& e : p.T) T.push_back(e.first, e.second);
}
void set_params(const Problem& p, fe::optional_parameters& o) {
    o.max_no_improvement = p.max_no_improvement;
    o.seed(p.seed);
    o.timeout = p.timeout;
    o.max_beta = p.max_beta;
    o.tries = p.tries;
    o.verbose = p.verbose;
    o.interactive = p.interactive;
    o.inner_rounds = p.inner_rounds;
    o.max_fill = p.max_fill;
    o.return_overlap = p.return_overlap;
    o.chainlength_patience = p.chainlength_patience;
    o.threads = p.threads;
    o.skip_initialization = p.skip_init;
    o.fixed_chains = p.fixed;
    o.initial_chains = p.initial;
    o.restrict_chains = p.restrict_;
}

std::string exc_name(const std::exception& e) {
    int st = 0;
    char* d = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
    std::string s = d ? d : typeid(e).name();
    free(d);
    return s;
}

void read_chains(fe::pathfinder_wrapper& pf, vector<vector<int>>& out) {
    int n = pf.num_vars();
    vector<vector<int>> c(n);
    for (int u = 0; u < n; u++) pf.get_chain(u, c[u]);
    sim::harness h;
    out = vector<vector<int>>(c.size());
    for (size_t i = 0; i < c.size(); i++) out[i].assign(c[i].begin(), c[i].end());
}

void exec_op(const Problem& prob, Obj& o, const Op& op, OpResult& r) {
    switch (op.kind) {
        case OP_FIND: {
            graph::input_graph S, T;
            build(prob, S, T);
            fe::optional_parameters params;
            set_params(prob, params);
            auto sink = std::make_shared<Sink>();
            sink->op = &op;
            sink->res = &r;
            params.localInteractionPtr = sink;
            vector<vector<int>> chains;
            int rc = fe::findEmbedding(S, T, params, chains);
            sim::harness h;
            r.rc = rc;
            r.chains = vector<vector<int>>(chains.size());
            for (size_t i = 0; i < chains.size(); i++) r.chains[i].assign(chains[i].begin(), chains[i].end());
            r.has_chains = true;
            break;
        }
        case OP_NEW: {
            o.pf.reset();
            o.S = graph::input_graph();
            o.T = graph::input_graph();
            build(prob, o.S, o.T);
            o.params.reset(new fe::optional_parameters());
            set_params(prob, *o.params);
            o.sink = std::make_shared<Sink>();
            o.sink->op = &op;
            o.sink->res = &r;
            o.params->localInteractionPtr = o.sink;
            o.pf.reset(new fe::pathfinder_wrapper(o.S, o.T, *o.params));
            r.rc = 1;
            break;
        }
        case OP_MFIND: {
            if (!o.pf) { r.skipped = true; return; }
            o.sink->op = &op;
            o.sink->res = &r;
            int rc = o.pf->heuristicEmbedding();
            r.rc = rc;
            if (rc || prob.return_overlap) { read_chains(*o.pf, r.chains); r.has_chains = true; }
            break;
        }
        case OP_QPASS: {
            if (!o.pf) { r.skipped = true; return; }
            o.sink->op = &op;
            o.sink->res = &r;
            if (op.order.size()) {
                vector<int> ord(op.order.begin(), op.order.end());
                o.pf->quickPass(ord, op.chainlength_bound, op.overlap_bound, op.local_search, op.clear_first, op.round_beta);
            } else
                o.pf->quickPass((fe::VARORDER)op.strategy, op.chainlength_bound, op.overlap_bound, op.local_search, op.clear_first, op.round_beta);
            r.rc = 0;
            read_chains(*o.pf, r.chains);
            r.has_chains = true;
            break;
        }
        case OP_SETINIT: {
            if (!o.pf) { r.skipped = true; return; }
            map<int, vector<int>> m;
            for (auto& kv : op.chains) m[kv.first] = kv.second;
            o.pf->set_initial_chains(m);
            r.rc = 0;
            break;
        }
        case OP_DEL:
            o.pf.reset();
            o.params.reset();
            r.rc = 0;
            break;
    }
}

// one caller of the library
void caller(const Plan& plan, int ci, Result& out) {
    const Caller& c = plan.callers[ci];
    Obj o;
    for (size_t i = 0; i < c.ops.size(); i++) {
        OpResult& r = out.ops[ci][i];
        const Op& op = c.ops[i];
        { sim::harness h; r.step0 = sim::steps(); r.mono0 = sim::mono_now(); r.alloc0 = sim::allocs(); r.thread0 = sim::thread_creations(); }
        if (op.pre_ns) sim::advance(op.pre_ns);
        // operations marked clean run with fault injection suspended
        sim::pause_faults(op.clean);
        try {
            exec_op(plan.problems[op.problem >= 0 ? op.problem : c.problem], o, op, r);
        } catch (const std::bad_alloc&) {
            sim::harness h; r.exc = "std::bad_alloc";
        } catch (const std::exception& e) {
            sim::harness h; r.exc = exc_name(e); r.what = e.what();
        } catch (int v) {
            sim::harness h; r.exc = "int";
        } catch (...) {
            sim::harness h; r.exc = "unknown";
        }
        sim::pause_faults(false);
        { sim::harness h; r.step1 = sim::steps(); r.mono1 = sim::mono_now(); r.alloc1 = sim::allocs(); r.thread1 = sim::thread_creations(); r.done = true; }
    }
    sim::pause_faults(true);
    o.pf.reset();
    o.params.reset();
    sim::pause_faults(false);
}
}  // namespace

void run_plan_body(void* a) {
    auto* pr = (std::pair<const Plan*, Result*>*)a;
    const Plan& plan = *pr->first;
    Result& out = *pr->second;
    if (plan.callers.size() == 1) {
        caller(plan, 0, out);
    } else {
        vector<std::thread> th;
        sim::pause_faults(true);
        for (size_t i = 0; i < plan.callers.size(); i++) th.emplace_back([&plan, i, &out]() { caller(plan, (int)i, out); });
        sim::pause_faults(false);
        for (auto& t : th) t.join();
    }
}
