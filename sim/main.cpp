// Simulation server: reads plans on stdin, runs each in a freshly forked process, prints one JSON line per plan.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <sstream>
#include <string>
#include <poll.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <unistd.h>
#include "plan.hpp"

static std::istream* in;
template <typename T>
static T rd() { T v{}; *in >> v; return v; }
static long long I() { return rd<long long>(); }
static uint64_t U() { return rd<uint64_t>(); }
static double D() { std::string s = rd<std::string>(); return strtod(s.c_str(), nullptr); }
static std::vector<int> ints() { std::vector<int> v(U()); for (auto& x : v) x = (int)I(); return v; }
static std::map<int, std::vector<int>> chains() { std::map<int, std::vector<int>> m; uint64_t n = U(); while (n--) { int k = (int)I(); m[k] = ints(); } return m; }
static std::vector<std::pair<int, int>> edges() { std::vector<std::pair<int, int>> v(U()); for (auto& e : v) { e.first = (int)I(); e.second = (int)I(); } return v; }
static std::vector<uint64_t> u64s() { std::vector<uint64_t> v(U()); for (auto& x : v) x = U(); return v; }
template <typename B>
static std::vector<std::pair<uint64_t, B>> prs() { std::vector<std::pair<uint64_t, B>> v(U()); for (auto& x : v) { x.first = U(); x.second = (B)I(); } return v; }

static bool parse(std::istream& is, Plan& p) {
    in = &is;
    sim::Env& e = p.env;
    e.mode = (int)I(); e.sseed = U(); e.param = (unsigned)U(); e.stall_pm = (unsigned)U(); e.spurious_pm = (unsigned)U();
    e.ns_per_step = I(); e.read_cost_ns = I(); e.real_drift_ppm = I(); e.garbage = (unsigned)U(); e.step_cap = U();
    e.trace = prs<int>(); e.mono_adv = prs<int64_t>(); e.real_jump = prs<int64_t>();
    e.new_fail = u64s(); e.thread_fail = u64s(); e.cancel_poll = u64s(); e.cancel_step = u64s();
    uint64_t np = U();
    while (np--) {
        Problem q;
        q.S = edges(); q.T = edges();
        q.tries = (int)I(); q.max_no_improvement = (int)I(); q.inner_rounds = (int)I(); q.chainlength_patience = (int)I(); q.threads = (int)I();
        q.timeout = D(); q.max_beta = D(); q.max_fill = (int)I(); q.return_overlap = (int)I(); q.skip_init = (int)I(); q.verbose = (int)I(); q.interactive = (int)I();
        q.seed = U();
        q.fixed = chains(); q.initial = chains(); q.restrict_ = chains();
        p.problems.push_back(q);
    }
    uint64_t nc = U();
    while (nc--) {
        Caller c;
        c.problem = (int)I();
        uint64_t no = U();
        while (no--) {
            Op o;
            o.kind = (int)I(); o.problem = (int)I(); o.cancel_poll = U(); o.late_poll = U(); o.late_ns = I(); o.log_ns = I(); o.pre_ns = I(); o.clean = I();
            o.order = ints(); o.strategy = (int)I(); o.chainlength_bound = (int)I(); o.overlap_bound = (int)I(); o.local_search = I(); o.clear_first = I(); o.round_beta = D();
            o.chains = chains();
            c.ops.push_back(o);
        }
        p.callers.push_back(c);
    }
    return !is.fail();
}

static Result g_res;
static int g_fd;
static std::string esc(const std::string& s) {
    std::string r;
    for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) r += ' '; else r += c; }
    return r;
}
static void flush(sim::Report& r) {
    std::ostringstream o;
    o << "{\"status\":\"" << sim::status_name[r.status] << "\",\"detail\":\"" << esc(r.detail) << "\",\"steps\":" << r.steps << ",\"switches\":" << r.switches
      << ",\"allocs\":" << r.allocs << ",\"threads\":" << r.threads << ",\"syncs\":" << r.syncs << ",\"clock_reads\":" << r.clock_reads << ",\"mono\":" << r.mono
      << ",\"hash\":\"" << r.sched_hash << "\",\"max_live\":" << r.max_live << ",\"fired\":{\"new\":" << r.fired_new << ",\"thread\":" << r.fired_thread
      << ",\"cancel\":" << r.fired_cancel << ",\"jump\":" << r.fired_jump << ",\"adv\":" << r.fired_adv << ",\"stall\":" << r.fired_stall
      << ",\"spurious\":" << r.fired_spurious << "},\"trace\":[";
    for (size_t i = 0; i < r.trace.size(); i++) o << (i ? "," : "") << "[" << r.trace[i].first << "," << r.trace[i].second << "]";
    o << "],\"ops\":[";
    for (size_t c = 0; c < g_res.ops.size(); c++) {
        o << (c ? "," : "") << "[";
        for (size_t i = 0; i < g_res.ops[c].size(); i++) {
            auto& q = g_res.ops[c][i];
            o << (i ? "," : "") << "{\"done\":" << q.done << ",\"skipped\":" << q.skipped << ",\"rc\":" << q.rc << ",\"exc\":\"" << esc(q.exc) << "\",\"what\":\"" << esc(q.what)
              << "\",\"polls\":" << q.polls << ",\"cancelled\":" << q.cancelled << ",\"messages\":" << q.messages << ",\"msg_hash\":\"" << q.msg_hash << "\",\"step0\":" << q.step0
              << ",\"step1\":" << q.step1 << ",\"alloc0\":" << q.alloc0 << ",\"alloc1\":" << q.alloc1 << ",\"thread0\":" << q.thread0 << ",\"thread1\":" << q.thread1
              << ",\"mono0\":" << q.mono0 << ",\"mono1\":" << q.mono1 << ",\"chains\":";
            if (!q.has_chains) o << "null";
            else {
                o << "[";
                for (size_t v = 0; v < q.chains.size(); v++) { o << (v ? ",[" : "["); for (size_t k = 0; k < q.chains[v].size(); k++) o << (k ? "," : "") << q.chains[v][k]; o << "]"; }
                o << "]";
            }
            o << ",\"poll_at\":[";
            for (size_t k = 0; k < q.poll_at.size(); k++) o << (k ? "," : "") << "[" << q.poll_at[k].first << "," << q.poll_at[k].second << "]";
            o << "],\"pass_at\":[";
            for (size_t k = 0; k < q.pass_at.size(); k++) o << (k ? "," : "") << q.pass_at[k];
            o << "]}";
        }
        o << "]";
    }
    o << "]}\n";
    std::string s = o.str();
    for (size_t i = 0; i < s.size();) { ssize_t k = write(g_fd, s.data() + i, s.size() - i); if (k <= 0) _exit(4); i += (size_t)k; }
}

int main(int argc, char** argv) {
    // fixed layout for the parts of the address space the kernel randomises
    if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("SIM_NO_REEXEC")) {
        if (personality(ADDR_NO_RANDOMIZE) != -1) { setenv("SIM_NO_REEXEC", "1", 1); execv("/proc/self/exe", argv); }
    }
    long wall = argc > 1 ? atol(argv[1]) : 60000;
    signal(SIGPIPE, SIG_IGN);
    std::string line;
    while (std::getline(std::cin, line)) {
        if (line.empty()) continue;
        int fd[2];
        if (pipe(fd)) return 3;
        pid_t pid = fork();
        if (pid == 0) {
            close(fd[0]);
            g_fd = fd[1];
            struct rlimit rl{0, 0};
            setrlimit(RLIMIT_CORE, &rl);
            Plan* plan = new Plan;
            std::istringstream is(line);
            if (!parse(is, *plan)) { const char* m = "{\"status\":\"internal\",\"detail\":\"bad plan\"}\n"; (void)!write(g_fd, m, strlen(m)); _exit(0); }
            for (auto& c : plan->callers) g_res.ops.push_back(std::vector<OpResult>(c.ops.size()));
            sim::Report* rep = new sim::Report;
            std::pair<const Plan*, Result*> arg(plan, &g_res);
            sim::run(plan->env, run_plan_body, &arg, *rep, flush);
            _exit(5);
        }
        close(fd[1]);
        std::string out;
        char buf[65536];
        bool late = false;
        for (;;) {
            struct pollfd pf{fd[0], POLLIN, 0};
            int k = poll(&pf, 1, (int)wall);
            if (k == 0) { late = true; kill(pid, SIGKILL); break; }
            ssize_t n = read(fd[0], buf, sizeof buf);
            if (n <= 0) break;
            out.append(buf, (size_t)n);
        }
        close(fd[0]);
        int st = 0;
        waitpid(pid, &st, 0);
        if (out.empty() || out.back() != '\n') {
            std::ostringstream o;
            if (late) o << "{\"status\":\"wallclock\",\"detail\":\"no answer\"}\n";
            else if (WIFSIGNALED(st)) o << "{\"status\":\"signal\",\"detail\":\"killed by signal " << WTERMSIG(st) << "\"}\n";
            else o << "{\"status\":\"exit\",\"detail\":\"exit status " << WEXITSTATUS(st) << "\"}\n";
            out = o.str();
        }
        fwrite(out.data(), 1, out.size(), stdout);
        fflush(stdout);
    }
    return 0;
}
