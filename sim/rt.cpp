#include "rt.hpp"
#include <atomic>
#include <cerrno>
#include <climits>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <exception>
#include <new>
#include <linux/futex.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>
#include <sched.h>
#include <cstdarg>

// Nothing in this file may use operator new while a run is active: plain malloc only.
namespace sim {
const char* status_name[] = {"ok", "deadlock", "no-progress", "data-race", "memory-error", "terminate", "leaked-thread", "internal"};

static long raw_syscall(long n, long a, long b, long c, long d, long e, long f) {
    long ret;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return ret;
}

// ---------------------------------------------------------------- memory layout
static constexpr int MAXT = 96;
static constexpr uintptr_t BASE = 0x100000000000ull;
static constexpr size_t HEAP = 192u << 20;
static constexpr size_t STK = 256u << 10;
static constexpr size_t REGION = HEAP + STK * MAXT;
static constexpr uintptr_t SH_SLOT = 0x200000000000ull;  // 4 x u64 per cell
static constexpr uintptr_t SH_PC = 0x240000000000ull;    // 4 x u32 per cell
static constexpr uintptr_t SH_VALID = 0x280000000000ull; // 1 byte per cell (heap only)
static constexpr uintptr_t SH_SYNC = 0x2c0000000000ull;  // u32 per cell
extern "C" char __data_start, _end, __executable_start;
static uintptr_t gl_lo, gl_hi;
static size_t CELLS;

static inline bool tracked(uintptr_t a, size_t& cell) {
    uintptr_t o = a - BASE;
    if (o < REGION) { cell = o >> 3; return true; }
    o = a - gl_lo;
    if (o < gl_hi - gl_lo) { cell = (REGION + o) >> 3; return true; }
    return false;
}

// ---------------------------------------------------------------- tasks
enum { T_FREE, T_RUN, T_BLOCK, T_DONE };
struct VC { uint32_t c[MAXT]; };
struct Task {
    int state = T_FREE;
    int slot;
    pthread_t handle;      // real thread
    int baton;
    const void* wait_obj;  // what a blocked task waits for
    int64_t wake_at;       // timed wait, -1 none
    bool timed_out;
    bool signalled;
    bool detached, joined;
    bool has_real;
    uint64_t stalled_until;
    uint64_t prio;
    uint64_t own;          // accesses so far (for the schedule hash)
    void* (*fn)(void*);
    void* arg;
    void* ret;
    VC vc;
    uint32_t gen;
    bool paused;           // fault injection suspended (inherited by created tasks)
};
static Task T[MAXT];
static int cur = -1;
static bool active = false;
static __thread int my_task = -1;
static uint64_t nsteps, next_decision, last_switch_step;
static int live;
static Env const* E;
static Report* R;
static void (*flush_cb)(Report&);
static Rng srng;
static uint64_t alloc_idx, thread_idx;
static int64_t adv_ns, real_off;
static size_t adv_i, jump_i, cancel_i, tr_i;
static uint64_t npolls;
static bool cancel_pending;
// traces kept in malloc'ed arrays
static std::pair<uint64_t, int>* trc; static size_t ntrc, ctrc;
static Poll* pls; static size_t npls, cpls;
static uint64_t pct_next; static uint64_t pct_low;

static int (*real_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
static int (*real_join)(pthread_t, void**);
static int (*real_detach)(pthread_t);

[[noreturn]] static void finish_child() {
    active = false;
    R->steps = nsteps;
    R->mono = 0;
    for (size_t i = 0; i < ntrc; i++) R->trace.push_back(trc[i]);
    for (size_t i = 0; i < npls; i++) R->polls.push_back(pls[i]);
    R->mono = mono_now();
    flush_cb(*R);
    _exit(0);
}
void fail(int status, const std::string& d) {
    if (!R) abort();
    active = false;
    R->status = status;
    R->detail = d;
    finish_child();
}
static void failf(int status, const char* fmt, ...) {
    char b[512];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    active = false;
    fail(status, b);
}

// ---------------------------------------------------------------- baton
static void baton_wait(Task& t) {
    while (__atomic_load_n(&t.baton, __ATOMIC_ACQUIRE) == 0)
        raw_syscall(SYS_futex, (long)&t.baton, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
    __atomic_store_n(&t.baton, 0, __ATOMIC_RELAXED);
}
static void baton_give(Task& t) {
    __atomic_store_n(&t.baton, 1, __ATOMIC_RELEASE);
    raw_syscall(SYS_futex, (long)&t.baton, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}
static inline void mixh(uint64_t v) {
    uint64_t h = R->sched_hash ^ v;
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 32;
    R->sched_hash = h;
}
void event(uint64_t h) { mixh(h); }

static void record(int task) {
    if (ntrc == ctrc) {
        ctrc = ctrc ? ctrc * 2 : 1024;
        trc = (std::pair<uint64_t, int>*)realloc((void*)trc, ctrc * sizeof(*trc));
    }
    trc[ntrc++] = {nsteps, task};
}

static void draw_next();
static void transfer(int to) {
    int me = cur;
    if (to == me) return;
    R->switches++;
    mixh(((uint64_t)to << 48) ^ (T[me].own << 8) ^ (uint64_t)me);
    last_switch_step = nsteps;
    cur = to;
    baton_give(T[to]);
    if (T[me].state != T_DONE) baton_wait(T[me]);
}

static void apply_time() {
    while (adv_i < E->mono_adv.size() && nsteps >= E->mono_adv[adv_i].first) { adv_ns += E->mono_adv[adv_i].second; adv_i++; R->fired_adv++; }
    while (jump_i < E->real_jump.size() && nsteps >= E->real_jump[jump_i].first) { real_off += E->real_jump[jump_i].second; jump_i++; R->fired_jump++; }
}
int64_t mono_now() { if (!E) return 0; apply_time(); return 1000000000000ll + (int64_t)nsteps * E->ns_per_step + adv_ns; }
uint64_t steps() { return nsteps; }
void pause_faults(bool b) { if (T[cur].paused != b) T[cur].paused = b; }
void advance(int64_t ns) { adv_ns += ns; R->fired_adv++; }
uint64_t allocs() { return alloc_idx; }
uint64_t thread_creations() { return thread_idx; }
harness::harness() { saved = active; active = false; }
harness::~harness() { active = saved; }

static bool runnable(int i) { return T[i].state == T_RUN; }

// choose among runnable tasks; `must` = current cannot continue
static int choose(bool must) {
    int cand[MAXT], n = 0;
    for (int i = 0; i < MAXT; i++) if (runnable(i) && (!must || i != cur)) cand[n++] = i;
    if (n == 0) return -1;
    if (E->mode == M_TRACE) {
        while (tr_i < E->trace.size() && E->trace[tr_i].first < nsteps) tr_i++;
        if (tr_i < E->trace.size() && E->trace[tr_i].first == nsteps) {
            int want = E->trace[tr_i].second;
            tr_i++;
            for (int k = 0; k < n; k++) if (cand[k] == want) return want;
        }
        if (!must) return cur;
        return cand[0];
    }
    // stalled tasks are skipped while anything else can run
    int ok[MAXT], m = 0;
    for (int k = 0; k < n; k++) if (T[cand[k]].stalled_until <= nsteps) ok[m++] = cand[k];
    if (m == 0) { memcpy(ok, cand, sizeof cand); m = n; }
    switch (E->mode) {
        case M_SEQ: return must ? ok[0] : cur;
        case M_RR: {
            for (int d = 1; d <= MAXT; d++) { int i = (cur + d) % MAXT; for (int k = 0; k < m; k++) if (ok[k] == i) return i; }
            return ok[0];
        }
        case M_PCT: case M_STARVE: {
            int b = ok[0];
            for (int k = 1; k < m; k++) if (T[ok[k]].prio > T[b].prio) b = ok[k];
            return b;
        }
        default: return ok[srng.below(m)];
    }
}

static void draw_next() {
    const uint64_t FAIR = 400000;
    uint64_t gap = UINT64_MAX / 4;
    switch (E->mode) {
        case M_RANDOM: { gap = 1 + srng.below(2ull << E->param); break; }
        case M_SYNC: gap = FAIR; break;
        case M_RR: gap = 1ull << E->param; break;
        case M_PCT: case M_STARVE: gap = 1 + srng.below(2ull << E->param); break;
        case M_TRACE: {
            while (tr_i < E->trace.size() && E->trace[tr_i].first <= nsteps) tr_i++;
            gap = tr_i < E->trace.size() ? E->trace[tr_i].first - nsteps : UINT64_MAX / 4;
            break;
        }
        default: gap = FAIR;
    }
    next_decision = nsteps + gap;
}

static void preempt_point() {  // nsteps == next_decision
    if (E->step_cap && nsteps > E->step_cap) failf(S_STEPCAP, "no end after %llu steps", (unsigned long long)nsteps);
    if (live < 2) { draw_next(); if (E->step_cap && next_decision > E->step_cap) next_decision = E->step_cap + 1; return; }
    if (E->mode == M_PCT) T[cur].prio = --pct_low;
    if (E->mode == M_STARVE) { if (srng.chance(1, 4)) T[cur].prio = --pct_low; }
    int to = choose(false);
    if (E->mode == M_SEQ || (E->mode == M_SYNC) || ((E->mode == M_STARVE || E->mode == M_TRACE) && to == cur)) {
        // fairness: a task that spins must let the others run
        if (nsteps - last_switch_step >= 400000) {
            for (int d = 1; d <= MAXT; d++) { int i = (cur + d) % MAXT; if (runnable(i)) { to = i; break; } }
        }
    }
    if (to != cur && to >= 0) {
        if (E->mode != M_TRACE && E->stall_pm && srng.chance(E->stall_pm, 1000)) {
            T[cur].stalled_until = nsteps + (1ull << srng.range(4, 16));
            R->fired_stall++;
        }
        record(to);
        int t = to;
        draw_next();
        transfer(t);
    } else draw_next();
    if (E->step_cap && next_decision > E->step_cap) next_decision = E->step_cap + 1;
}

static inline void step() {
    T[cur].own++;
    if (++nsteps >= next_decision) preempt_point();
}

// a synchronisation operation: always a step, and in sync-oriented modes a decision
static void sync_point() {
    R->syncs++;
    T[cur].own++;
    ++nsteps;
    if (E->step_cap && nsteps > E->step_cap) failf(S_STEPCAP, "no end after %llu steps", (unsigned long long)nsteps);
    if (live >= 2 && E->mode != M_TRACE && E->mode != M_SEQ) {
        bool sw = false;
        if (E->mode == M_SYNC) sw = srng.chance(1, 1 + E->param);
        else if (E->mode == M_RANDOM) sw = srng.chance(1, 6);
        else if (E->mode == M_PCT) sw = true;   // re-evaluate priorities
        else if (E->mode == M_STARVE) sw = true;
        if (sw) {
            int to = choose(false);
            if (to >= 0 && to != cur) { record(to); draw_next(); transfer(to); return; }
        }
    }
    if (nsteps >= next_decision) preempt_point();
}

static bool fire_timers() {  // nothing runnable: jump the clock to the next timed wait
    int best = -1;
    for (int i = 0; i < MAXT; i++)
        if (T[i].state == T_BLOCK && T[i].wake_at >= 0 && (best < 0 || T[i].wake_at < T[best].wake_at)) best = i;
    if (best < 0) return false;
    int64_t now = mono_now();
    if (T[best].wake_at > now) adv_ns += T[best].wake_at - now;
    T[best].state = T_RUN;
    T[best].timed_out = true;
    T[best].wait_obj = nullptr;
    T[best].wake_at = -1;
    return true;
}

static void block(const void* obj, int64_t wake_at) {
    Task& t = T[cur];
    t.state = T_BLOCK;
    t.wait_obj = obj;
    t.wake_at = wake_at;
    t.timed_out = false;
    t.signalled = false;
    t.own++;
    ++nsteps;
    int to = choose(true);
    while (to < 0) {
        if (!fire_timers()) failf(S_DEADLOCK, "all %d live tasks are blocked", live);
        if (T[cur].state == T_RUN) return;
        to = choose(true);
    }
    record(to);
    draw_next();
    transfer(to);
}
static void wake(int i) { T[i].state = T_RUN; T[i].wait_obj = nullptr; T[i].wake_at = -1; T[i].signalled = true; }
static int wake_obj(const void* obj, int n) {
    int c = 0;
    // which waiter goes first is a scheduling choice
    while (c < n) {
        int w[MAXT], k = 0;
        for (int i = 0; i < MAXT; i++) if (T[i].state == T_BLOCK && T[i].wait_obj == obj) w[k++] = i;
        if (!k) break;
        int i = (E->mode == M_TRACE || E->mode == M_SEQ || n >= k) ? w[0] : w[srng.below(k)];
        wake(i);
        c++;
    }
    return c;
}

// ---------------------------------------------------------------- vector clocks and sync objects
static VC* syncs_pool; static uint32_t nsync, csync;
struct HEnt { uintptr_t a; uint32_t id; };
static HEnt* htab; static size_t hcap, hcnt;
static uint32_t new_sync() {
    if (nsync == csync) { csync = csync ? csync * 2 : 4096; syncs_pool = (VC*)realloc((void*)syncs_pool, csync * sizeof(VC)); }
    memset(&syncs_pool[nsync], 0, sizeof(VC));
    return nsync++;
}
static uint32_t free_sync_list[1 << 16]; static uint32_t nfree_sync;
static VC& sync_of(uintptr_t a) {
    size_t cell;
    if (tracked(a, cell)) {
        uint32_t& id = ((uint32_t*)SH_SYNC)[cell];
        if (!id) {
            if (nfree_sync) { id = free_sync_list[--nfree_sync]; memset(&syncs_pool[id], 0, sizeof(VC)); }
            else id = new_sync();
        }
        return syncs_pool[id];
    }
    if (!htab) { hcap = 4096; htab = (HEnt*)calloc(hcap, sizeof(HEnt)); }
    size_t i = (a * 0x9E3779B97F4A7C15ull >> 40) % hcap;
    while (htab[i].a && htab[i].a != a) i = (i + 1) % hcap;
    if (!htab[i].a) { if (++hcnt > hcap / 2) failf(S_INTERNAL, "sync table full"); htab[i].a = a; htab[i].id = new_sync(); }
    return syncs_pool[htab[i].id];
}
static inline void vjoin(VC& a, const VC& b) { for (int i = 0; i < MAXT; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
static inline void acquire(uintptr_t a) { vjoin(T[cur].vc, sync_of(a)); }
static inline void release(uintptr_t a) { vjoin(sync_of(a), T[cur].vc); T[cur].vc.c[cur]++; }

// ---------------------------------------------------------------- access checks
static uint32_t evict_ctr;
static void race(uintptr_t a, size_t n, bool w, uintptr_t pc, uint64_t s, uint32_t ppc) {
    failf(S_RACE, "%s of %zu bytes by task %d (pc +0x%lx) conflicts with %s by task %d (pc +0x%x), unordered",
          w ? "write" : "read", n, cur, (unsigned long)(pc - (uintptr_t)&__executable_start), (s & 1) ? "write" : "read", (int)((s >> 1) & 0x7f), ppc);
}
static inline void check_cell(size_t cell, uint8_t mask, bool w, uintptr_t pc, uintptr_t a, size_t n) {
    uint64_t* s = (uint64_t*)SH_SLOT + cell * 4;
    uint32_t* p = (uint32_t*)SH_PC + cell * 4;
    VC& vc = T[cur].vc;
    uint64_t me = ((uint64_t)vc.c[cur] << 16) | ((uint64_t)mask << 8) | ((uint64_t)cur << 1) | (w ? 1 : 0);
    int put = -1;
    for (int i = 0; i < 4; i++) {
        uint64_t x = s[i];
        if (!x) { if (put < 0) put = i; continue; }
        int t = (x >> 1) & 0x7f;
        uint8_t m = (uint8_t)(x >> 8);
        if (t == cur) {
            if (m == mask && ((x & 1) || !w || !(x & 1))) { if ((x & 1) <= (unsigned)w) put = i; else if (put < 0) put = i; }
            continue;
        }
        if (!(m & mask)) continue;
        if (!(x & 1) && !w) continue;
        if ((x >> 16) > vc.c[t]) race(a, n, w, pc, x, p[i]);
        else if (m == mask && put < 0) put = i;  // ordered before us: may be replaced
    }
    if (put < 0) put = (evict_ctr++) & 3;
    s[put] = me;
    p[put] = (uint32_t)(pc - (uintptr_t)&__executable_start);
}
static void memerr(uintptr_t a, size_t n, bool w, uintptr_t pc, uint8_t v) {
    failf(S_MEMERR, "%s of %zu bytes at heap+0x%lx (pc +0x%lx): %s", w ? "write" : "read", n, (unsigned long)(a - BASE),
          (unsigned long)(pc - (uintptr_t)&__executable_start), v == 0xFD ? "freed memory" : "outside any live object");
}
static bool multi_ever;  // a second task has existed
static inline void access(uintptr_t a, size_t n, bool w, uintptr_t pc) {
    if (!active || my_task != cur || my_task < 0) return;
    uintptr_t o = a - BASE;
    if (o < HEAP) {
        uint8_t v = ((uint8_t*)SH_VALID)[o >> 3];
        if ((o & 7) + n <= 8) { if (v > 8 || (o & 7) + n > v) memerr(a, n, w, pc, v); }
        else
            for (uintptr_t q = o & ~7ull; q < o + n; q += 8) {
                uint8_t vv = ((uint8_t*)SH_VALID)[q >> 3];
                uintptr_t end = o + n - q < 8 ? o + n - q : 8;
                if (vv > 8 || end > vv) memerr(a, n, w, pc, vv);
            }
        step();
    } else if (o < REGION) {
        if (live >= 2) { // shared stack data
            uintptr_t own_lo = BASE + HEAP + STK * (uintptr_t)cur;
            if (a - own_lo >= STK) step();
        }
    } else {
        if (a - gl_lo < gl_hi - gl_lo) step(); else return;
    }
    if (!multi_ever) return;
    size_t cell;
    if (!tracked(a, cell)) return;
    unsigned off = a & 7;
    while (n) {
        unsigned k = 8 - off < n ? 8 - off : (unsigned)n;
        uint8_t mask = (uint8_t)(((1u << k) - 1) << off);
        check_cell(cell, mask, w, pc, a, n);
        n -= k;
        off = 0;
        cell++;
    }
}

// ---------------------------------------------------------------- allocator
static constexpr int NCLS = 64;
static size_t bump;
struct FQ { uint32_t* v; size_t cap, head, tail; };
static FQ fq[NCLS];
static int cls_of(size_t n) {  // n multiple of 16
    if (n <= 512) return (int)(n / 16);
    int c = 33;
    size_t s = 1024;
    while (s < n) { s <<= 1; c++; }
    return c;
}
static size_t cls_size(int c) { return c <= 32 ? (size_t)c * 16 : (size_t)1024 << (c - 33); }
struct Hdr { uint64_t size; uint32_t cls; uint32_t magic; };
static void fill(void* p, size_t n) {
    unsigned g = E ? E->garbage : 0;
    if (g < 256) { memset(p, (int)g, n); return; }
    uint64_t x = (uint64_t)g * 0x9E3779B97F4A7C15ull + (uintptr_t)p;
    for (size_t i = 0; i + 8 <= n; i += 8) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; memcpy((char*)p + i, &x, 8); }
}
static void* heap_alloc(size_t n) {
    size_t tot = ((n ? n : 1) + 15) / 16 * 16;
    int c = cls_of(tot);
    if (c >= NCLS) return nullptr;
    size_t body = cls_size(c), off;
    FQ& q = fq[c];
    if (q.tail - q.head > 64 || (bump + body + 48 > HEAP && q.tail > q.head)) {
        off = (size_t)q.v[q.head++ % q.cap] * 16;
    } else {
        if (bump + body + 48 > HEAP) return nullptr;
        off = bump;
        bump += body + 32;  // header + trailing redzone
    }
    Hdr* h = (Hdr*)(BASE + off);
    h->size = n; h->cls = (uint32_t)c; h->magic = 0xA110CA7E;
    char* p = (char*)(h + 1);
    uint8_t* v = (uint8_t*)SH_VALID + (off + 16) / 8;
    memset(v, 8, n / 8);
    if (n & 7) v[n / 8] = (uint8_t)(n & 7);
    size_t used = (n + 7) / 8, all = body / 8;
    if (all > used) memset(v + used, 0, all - used);
    // fresh object: no history
    size_t cell = (off + 16) >> 3;
    if (multi_ever) memset((uint64_t*)SH_SLOT + cell * 4, 0, (used ? used : 1) * 32);
    fill(p, body);
    return p;
}
static void heap_free(void* ptr) {
    uintptr_t a = (uintptr_t)ptr, o = a - BASE;
    Hdr* h = (Hdr*)ptr - 1;
    if (h->magic != 0xA110CA7E) failf(S_MEMERR, h->magic == 0xDEADF4EE ? "double free" : "free of something that is not an object");
    h->magic = 0xDEADF4EE;
    size_t n = h->size, used = (n + 7) / 8;
    // freeing counts as a write to the object
    if (active && multi_ever && my_task == cur && cur >= 0 && live >= 2)
        for (size_t i = 0; i < used; i++) check_cell((o >> 3) + i, 0xff, true, (uintptr_t)__builtin_return_address(0), a, n);
    memset((uint8_t*)SH_VALID + (o >> 3), 0xFD, used);
    uint32_t* sy = (uint32_t*)SH_SYNC + (o >> 3);
    for (size_t i = 0; i < used; i++) if (sy[i]) { if (nfree_sync < (1 << 16)) free_sync_list[nfree_sync++] = sy[i]; sy[i] = 0; }
    FQ& q = fq[h->cls];
    if (q.tail - q.head >= q.cap) {
        size_t nc = q.cap ? q.cap * 2 : 256;
        uint32_t* nv = (uint32_t*)malloc(nc * 4);
        for (size_t i = q.head; i < q.tail; i++) nv[i % nc] = q.v[i % q.cap];
        free(q.v);
        q.v = nv; q.cap = nc;
    }
    q.v[q.tail++ % q.cap] = (uint32_t)((o - 16) / 16);
}
static bool in_heap(void* p) { return (uintptr_t)p - BASE < HEAP; }
static bool in_list(const std::vector<uint64_t>& v, uint64_t x) { for (auto y : v) if (y == x) return true; return false; }

static void* sim_new(size_t n, bool nothrow) {
    if (!active || my_task != cur || my_task < 0) {
        void* p = malloc(n ? n : 1);
        if (!p) abort();
        return p;
    }
    if (!T[cur].paused) {
        uint64_t k = ++alloc_idx;
        R->allocs = k;
        if (!E->new_fail.empty() && in_list(E->new_fail, k)) {
            R->fired_new++;
            mixh(0xA110C ^ k);
            if (nothrow) return nullptr;
            throw std::bad_alloc();
        }
    }
    void* p = heap_alloc(n);
    if (!p) { if (nothrow) return nullptr; throw std::bad_alloc(); }
    return p;
}
static void sim_delete(void* p) {
    if (!p) return;
    if (in_heap(p)) heap_free(p); else free(p);
}

// ---------------------------------------------------------------- simulated pthreads
static void* task_main(void* a) {
    Task& t = *(Task*)a;
    my_task = t.slot;
    baton_wait(t);
    void* r = t.fn(t.arg);
    t.ret = r;
    // finished: everything we did happens before whoever joins us
    t.state = T_DONE;
    live--;
    T[cur].own++;
    ++nsteps;
    release((uintptr_t)&t);
    wake_obj(&t, MAXT);
    if (t.detached) t.state = T_DONE;  // reaped at the end of the run
    int to = choose(true);
    while (to < 0) { if (!fire_timers()) failf(S_DEADLOCK, "a task ended and nothing else can run"); to = choose(true); }
    record(to);
    draw_next();
    transfer(to);
    return r;
}
static int alloc_slot() {
    for (int i = 0; i < MAXT; i++) if (T[i].state == T_FREE) return i;
    return -1;
}
static int task_of(pthread_t h) {
    for (int i = 0; i < MAXT; i++) if (T[i].state != T_FREE && T[i].has_real && pthread_equal(T[i].handle, h)) return i;
    return -1;
}

static int sim_create(pthread_t* out, void* (*fn)(void*), void* arg, bool detached) {
    sync_point();
    if (!T[cur].paused) {
        uint64_t k = ++thread_idx;
        R->threads = k;
        if (in_list(E->thread_fail, k)) { R->fired_thread++; mixh(0x7EAD ^ k); return EAGAIN; }
    }
    int i = alloc_slot();
    if (i < 0) return EAGAIN;
    Task& t = T[i];
    uint32_t keep = t.vc.c[i];
    t.state = T_RUN; t.slot = i; t.baton = 0; t.wait_obj = nullptr; t.wake_at = -1;
    t.detached = detached; t.joined = false; t.stalled_until = 0; t.paused = T[cur].paused; t.fn = fn; t.arg = arg; t.ret = nullptr; t.own = 0;
    t.prio = (E->mode == M_PCT || E->mode == M_STARVE) ? (1ull << 40) + (srng.next() >> 30) : 0;
    t.vc = T[cur].vc;
    t.vc.c[i] = keep + 1;
    if (t.vc.c[i] <= T[cur].vc.c[i]) t.vc.c[i] = T[cur].vc.c[i] + 1;
    T[cur].vc.c[cur]++;
    t.gen++;
    multi_ever = true;
    live++;
    if (live > R->max_live) R->max_live = live;
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstack(&at, (void*)(BASE + HEAP + STK * (uintptr_t)i), STK);
    int rc = real_create(&t.handle, &at, task_main, &t);
    pthread_attr_destroy(&at);
    if (rc) failf(S_INTERNAL, "real pthread_create failed: %d", rc);
    t.has_real = true;
    // no history for the fresh stack
    size_t c0 = (HEAP + STK * (size_t)i) >> 3;
    madvise((void*)(SH_SLOT + c0 * 32), STK / 8 * 32, MADV_DONTNEED);
    *out = t.handle;
    sync_point();
    return 0;
}
static int sim_join(pthread_t h, void** ret) {
    int i = task_of(h);
    if (i < 0) return ESRCH;
    sync_point();
    while (T[i].state != T_DONE) block(&T[i], -1);
    acquire((uintptr_t)&T[i]);
    if (ret) *ret = T[i].ret;
    real_join(h, nullptr);
    T[i].state = T_FREE;
    T[i].has_real = false;
    return 0;
}

struct Mx { uintptr_t a; int owner; int count; };
static Mx mx[4096]; static int nmx;
static Mx& mutex_of(const void* m) {
    for (int i = nmx; i--;) if (mx[i].a == (uintptr_t)m) return mx[i];
    for (int i = 0; i < nmx; i++) if (mx[i].owner < 0) { mx[i] = {(uintptr_t)m, -1, 0}; return mx[i]; }
    if (nmx == 4096) failf(S_INTERNAL, "too many mutexes");
    mx[nmx] = {(uintptr_t)m, -1, 0};
    return mx[nmx++];
}
static bool insim() { return active && my_task >= 0 && my_task == cur; }
static int mutex_lock(pthread_mutex_t* m, bool try_, int64_t wake_at = -1) {
    sync_point();
    bool rec = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
    for (;;) {
        Mx& x = mutex_of(m);
        if (x.owner < 0) { x.owner = cur; x.count = 1; break; }
        if (x.owner == cur && rec) { x.count++; return 0; }
        if (try_) return EBUSY;
        block(m, wake_at);
        if (T[cur].timed_out) return ETIMEDOUT;
    }
    acquire((uintptr_t)m);
    return 0;
}
static int mutex_unlock(pthread_mutex_t* m) {
    Mx& x = mutex_of(m);
    if (x.owner != cur) failf(S_MEMERR, "unlock of a mutex that the task does not hold");
    if (--x.count > 0) return 0;
    release((uintptr_t)m);
    mutex_of(m).owner = -1;
    wake_obj(m, MAXT);
    sync_point();
    return 0;
}
static int64_t abs_to_mono(clockid_t c, const struct timespec* ts) {
    if (!ts) return -1;
    int64_t t = ts->tv_sec * 1000000000ll + ts->tv_nsec;
    if (c == CLOCK_REALTIME) t -= 1700000000000000000ll + real_off;
    return t < 0 ? 0 : t;
}
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, int64_t wake_at) {
    sync_point();
    if (E->spurious_pm && E->mode != M_TRACE && srng.chance(E->spurious_pm, 1000)) {
        R->fired_spurious++;
        mutex_unlock(m);
        mutex_lock(m, false);
        return 0;
    }
    Mx& x = mutex_of(m);
    int cnt = x.count;
    x.count = 1;
    // release without a preemption point between release and wait: they are atomic
    release((uintptr_t)m);
    mutex_of(m).owner = -1;
    wake_obj(m, MAXT);
    block(c, wake_at);
    bool to = T[cur].timed_out;
    for (;;) {
        Mx& y = mutex_of(m);
        if (y.owner < 0) { y.owner = cur; y.count = cnt; break; }
        block(m, -1);
    }
    acquire((uintptr_t)m);
    return to ? ETIMEDOUT : 0;
}
static bool poll_pending() {
    while (cancel_i < E->cancel_step.size() && nsteps >= E->cancel_step[cancel_i]) { cancel_i++; cancel_pending = true; }
    return cancel_pending;
}
bool poll_cancelled() {
    npolls++;
    if (npls == cpls) { cpls = cpls ? cpls * 2 : 256; pls = (Poll*)realloc((void*)pls, cpls * sizeof(Poll)); }
    pls[npls++] = {nsteps, mono_now()};
    bool c = poll_pending() || in_list(E->cancel_poll, npolls);
    cancel_pending = false;
    if (c) { R->fired_cancel++; mixh(0xCA9CE1 ^ npolls); }
    return c;
}

struct Boot { void (*body)(void*); void* arg; };
static void* boot_main(void* a) {
    Boot* b = (Boot*)a;
    my_task = 0;
    baton_wait(T[0]);
    active = true;
    draw_next();
    if (E->step_cap && next_decision > E->step_cap) next_decision = E->step_cap + 1;
    b->body(b->arg);
    if (live > 1) failf(S_LEAKTHREAD, "%d worker thread(s) still running when the call returned", live - 1);
    finish_child();
}

void run(const Env& env, void (*body)(void*), void* arg, Report& rep, void (*flush)(Report&)) {
    real_create = (decltype(real_create))dlsym(RTLD_NEXT, "pthread_create");
    real_join = (decltype(real_join))dlsym(RTLD_NEXT, "pthread_join");
    real_detach = (decltype(real_detach))dlsym(RTLD_NEXT, "pthread_detach");
    gl_lo = (uintptr_t)&__data_start & ~7ull;
    gl_hi = ((uintptr_t)&_end + 7) & ~7ull;
    CELLS = (REGION + (gl_hi - gl_lo)) / 8 + 16;
    auto map = [](uintptr_t a, size_t n) {
        void* p = mmap((void*)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (p != (void*)a) { perror("mmap"); _exit(3); }
    };
    map(BASE, REGION);
    map(SH_SLOT, CELLS * 32);
    map(SH_PC, CELLS * 16);
    map(SH_VALID, HEAP / 8 + 64);
    map(SH_SYNC, CELLS * 4);
    new_sync();  // id 0 means none
    E = &env;
    R = &rep;
    flush_cb = flush;
    srng = Rng(env.sseed * 0x9E3779B97F4A7C15ull + 12345);
    pct_low = 1ull << 30;
    live = 1;
    bump = 64;
    memset((void*)T, 0, sizeof T);
    for (int i = 0; i < MAXT; i++) { T[i].slot = i; T[i].wake_at = -1; }
    T[0].state = T_RUN;
    T[0].vc.c[0] = 1;
    T[0].prio = (1ull << 40) + (srng.next() >> 30);
    cur = 0;
    fill((void*)(BASE + HEAP), STK);
    Boot b{body, arg};
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstack(&at, (void*)(BASE + HEAP), STK);
    pthread_t th;
    if (real_create(&th, &at, boot_main, &b)) { perror("create"); _exit(3); }
    T[0].handle = th;
    T[0].has_real = true;
    std::set_terminate([]() {
        std::string d = "std::terminate";
        active = false;
        try { std::rethrow_exception(std::current_exception()); }
        catch (std::exception& e) { d += std::string(": ") + e.what(); }
        catch (...) { d += ": unknown exception or none"; }
        fail(S_TERMINATE, d);
    });
    baton_give(T[0]);
    for (;;) pause();
}
}  // namespace sim

using namespace sim;

// ---------------------------------------------------------------- operator new / delete
void* operator new(size_t n) { return sim_new(n, false); }
void* operator new[](size_t n) { return sim_new(n, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return sim_new(n, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return sim_new(n, true); }
void operator delete(void* p) noexcept { sim_delete(p); }
void operator delete[](void* p) noexcept { sim_delete(p); }
void operator delete(void* p, size_t) noexcept { sim_delete(p); }
void operator delete[](void* p, size_t) noexcept { sim_delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim_delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim_delete(p); }

// ---------------------------------------------------------------- interposed libc
extern "C" {
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
    static auto rc = (int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*))dlsym(RTLD_NEXT, "pthread_create");
    if (!insim()) return rc(t, a, fn, arg);
    int ds = 0;
    if (a) pthread_attr_getdetachstate(a, &ds);
    return sim_create(t, fn, arg, ds == PTHREAD_CREATE_DETACHED);
}
int pthread_join(pthread_t h, void** r) {
    static auto rj = (int (*)(pthread_t, void**))dlsym(RTLD_NEXT, "pthread_join");
    if (!insim()) return rj(h, r);
    return sim_join(h, r);
}
int pthread_detach(pthread_t h) {
    static auto rd = (int (*)(pthread_t))dlsym(RTLD_NEXT, "pthread_detach");
    if (!insim()) return rd(h);
    int i = task_of(h);
    if (i < 0) return ESRCH;
    T[i].detached = true;
    return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) {
    static auto f = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_lock");
    if (!insim()) return f(m);
    return mutex_lock(m, false);
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    static auto f = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_trylock");
    if (!insim()) return f(m);
    return mutex_lock(m, true);
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    static auto f = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_unlock");
    if (!insim()) return f(m);
    return mutex_unlock(m);
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) { return mutex_lock(m, false, abs_to_mono(CLOCK_REALTIME, ts)); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* ts) { return mutex_lock(m, false, abs_to_mono(c, ts)); }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    static auto f = (int (*)(pthread_cond_t*, pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_cond_wait");
    if (!insim()) return f(c, m);
    return cond_wait(c, m, -1);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { return cond_wait(c, m, abs_to_mono(CLOCK_REALTIME, ts)); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) { return cond_wait(c, m, abs_to_mono(k, ts)); }
int pthread_cond_signal(pthread_cond_t* c) {
    static auto f = (int (*)(pthread_cond_t*))dlsym(RTLD_NEXT, "pthread_cond_signal");
    if (!insim()) return f(c);
    wake_obj(c, 1);
    sync_point();
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    static auto f = (int (*)(pthread_cond_t*))dlsym(RTLD_NEXT, "pthread_cond_broadcast");
    if (!insim()) return f(c);
    wake_obj(c, MAXT);
    sync_point();
    return 0;
}
// reader/writer locks: treated as exclusive
int pthread_rwlock_rdlock(pthread_rwlock_t* l) { return insim() ? mutex_lock((pthread_mutex_t*)l, false) : 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) { return insim() ? mutex_lock((pthread_mutex_t*)l, false) : 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* l) { return insim() ? mutex_unlock((pthread_mutex_t*)l) : 0; }

static int guard_enter(uintptr_t a, volatile char* done, volatile char* busy) {
    for (;;) {
        sync_point();
        if (*done) { acquire(a); return 0; }
        if (!*busy) { *busy = 1; return 1; }
        block((void*)a, -1);
    }
}
int __cxa_guard_acquire(uint64_t* g) {
    volatile char* b = (volatile char*)g;
    if (!insim()) { if (b[0]) return 0; return 1; }
    return guard_enter((uintptr_t)g, b, b + 1);
}
void __cxa_guard_release(uint64_t* g) {
    char* b = (char*)g;
    if (insim()) { release((uintptr_t)g); b[0] = 1; b[1] = 0; wake_obj(g, MAXT); } else { b[0] = 1; b[1] = 0; }
}
void __cxa_guard_abort(uint64_t* g) {
    char* b = (char*)g;
    b[1] = 0;
    if (insim()) wake_obj(g, MAXT);
}
int pthread_once(pthread_once_t* o, void (*fn)(void)) {
    static auto f = (int (*)(pthread_once_t*, void (*)(void)))dlsym(RTLD_NEXT, "pthread_once");
    if (!insim()) return f(o, fn);
    for (;;) {
        sync_point();
        if (*o == 2) { acquire((uintptr_t)o); return 0; }
        if (*o == 0) break;
        block(o, -1);
    }
    *o = 1;
    try { fn(); } catch (...) { *o = 0; wake_obj(o, MAXT); throw; }
    release((uintptr_t)o);
    *o = 2;
    wake_obj(o, MAXT);
    return 0;
}
int sched_yield(void) { if (insim()) sync_point(); return 0; }

static void put(struct timespec* ts, int64_t t) { ts->tv_sec = t / 1000000000ll; ts->tv_nsec = t % 1000000000ll; }
int clock_gettime(clockid_t c, struct timespec* ts) {
    if (!insim()) return (int)raw_syscall(SYS_clock_gettime, c, (long)ts, 0, 0, 0, 0);
    R->clock_reads++;
    adv_ns += E->read_cost_ns;
    int64_t m = mono_now();
    if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) put(ts, m + 1700000000000000000ll + real_off + (m - 1000000000000ll) / 1000000 * E->real_drift_ppm);
    else put(ts, m);
    return 0;
}
int gettimeofday(struct timeval* tv, void*) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
time_t time(time_t* t) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}
clock_t clock(void) {
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec * 1000000 + ts.tv_nsec / 1000;
}
int nanosleep(const struct timespec* rq, struct timespec*) {
    if (!insim()) return (int)raw_syscall(SYS_nanosleep, (long)rq, 0, 0, 0, 0, 0);
    block((void*)&T[cur].wake_at, mono_now() + rq->tv_sec * 1000000000ll + rq->tv_nsec);
    return 0;
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec* rq, struct timespec* rm) {
    if (!insim()) return (int)raw_syscall(SYS_clock_nanosleep, c, flags, (long)rq, (long)rm, 0, 0);
    if (flags & TIMER_ABSTIME) block((void*)&T[cur].wake_at, abs_to_mono(c, rq)); else return nanosleep(rq, rm);
    return 0;
}
int usleep(useconds_t u) { struct timespec ts{(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; return nanosleep(&ts, nullptr); }

long syscall(long n, ...) {
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && insim()) {
        int op = (int)b & 127 & ~FUTEX_PRIVATE_FLAG & ~FUTEX_CLOCK_REALTIME;
        int* addr = (int*)a;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            sync_point();
            if (*(volatile int*)addr != (int)c) { errno = EAGAIN; return -1; }
            if (E->spurious_pm && E->mode != M_TRACE && srng.chance(E->spurious_pm, 1000)) { R->fired_spurious++; errno = EINTR; return -1; }
            int64_t w = -1;
            if (d) {
                const struct timespec* ts = (const struct timespec*)d;
                if (op == FUTEX_WAIT) w = mono_now() + ts->tv_sec * 1000000000ll + ts->tv_nsec;
                else w = abs_to_mono(((int)b & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC, ts);
            }
            block(addr, w);
            if (T[cur].timed_out) { errno = ETIMEDOUT; return -1; }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
            int k = wake_obj(addr, (int)c);
            sync_point();
            return k;
        }
        failf(S_INTERNAL, "unsupported futex operation %d", op);
    }
    long r = raw_syscall(n, a, b, c, d, e, f);
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}

// ---------------------------------------------------------------- instrumentation entry points
#define PC ((uintptr_t)__builtin_return_address(0))
#define RW(n) \
    void __tsan_read##n(void* a) { access((uintptr_t)a, n, false, PC); } \
    void __tsan_write##n(void* a) { access((uintptr_t)a, n, true, PC); } \
    void __tsan_unaligned_read##n(void* a) { access((uintptr_t)a, n, false, PC); } \
    void __tsan_unaligned_write##n(void* a) { access((uintptr_t)a, n, true, PC); } \
    void __tsan_read_write##n(void* a) { access((uintptr_t)a, n, true, PC); } \
    void __tsan_unaligned_read_write##n(void* a) { access((uintptr_t)a, n, true, PC); } \
    void __tsan_volatile_read##n(void* a) { access((uintptr_t)a, n, false, PC); } \
    void __tsan_volatile_write##n(void* a) { access((uintptr_t)a, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** a, void*) { access((uintptr_t)a, 8, true, PC); }
void __tsan_vptr_read(void** a) { access((uintptr_t)a, 8, false, PC); }
void __tsan_read_range(void* a, size_t n) { if (n) access((uintptr_t)a, n, false, PC); }
void __tsan_write_range(void* a, size_t n) { if (n) access((uintptr_t)a, n, true, PC); }
void* __tsan_memcpy(void* d, const void* s, size_t n) {
    if (n) { access((uintptr_t)s, n, false, PC); access((uintptr_t)d, n, true, PC); }
    return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, size_t n) {
    if (n) { access((uintptr_t)s, n, false, PC); access((uintptr_t)d, n, true, PC); }
    return memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, size_t n) {
    if (n) access((uintptr_t)d, n, true, PC);
    return memset(d, c, n);
}
// the C library calls of the engine touch memory too (engine.o is linked with these names in place of the library's)
size_t sim_strlen(const char* p) { size_t n = strlen(p); access((uintptr_t)p, n + 1, false, PC); return n; }
int sim_vsnprintf(char* b, size_t n, const char* f, va_list a) {
    int r = vsnprintf(b, n, f, a);
    if (b && n && r >= 0) access((uintptr_t)b, (size_t)r < n ? (size_t)r + 1 : n, true, PC);
    return r;
}
int sim_snprintf(char* b, size_t n, const char* f, ...) {
    va_list a;
    va_start(a, f);
    int r = vsnprintf(b, n, f, a);
    va_end(a);
    if (b && n && r >= 0) access((uintptr_t)b, (size_t)r < n ? (size_t)r + 1 : n, true, PC);
    return r;
}
// memory orders: 0 relaxed 1 consume 2 acquire 3 release 4 acq_rel 5 seq_cst
static inline bool is_acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static inline bool is_rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
static inline void at_pre() { if (insim()) sync_point(); }
static inline void at_acq(const volatile void* a, int mo) { if (insim() && is_acq(mo)) acquire((uintptr_t)a); }
static inline void at_rel(const volatile void* a, int mo) { if (insim() && is_rel(mo)) release((uintptr_t)a); }
#define ATOM(bits, ty) \
    ty __tsan_atomic##bits##_load(const volatile ty* a, int mo) { at_pre(); ty v = *a; at_acq(a, mo); return v; } \
    void __tsan_atomic##bits##_store(volatile ty* a, ty v, int mo) { at_pre(); at_rel(a, mo); *a = v; } \
    ty __tsan_atomic##bits##_exchange(volatile ty* a, ty v, int mo) { at_pre(); at_acq(a, mo); at_rel(a, mo); ty o = *a; *a = v; return o; } \
    ty __tsan_atomic##bits##_fetch_add(volatile ty* a, ty v, int mo) { at_pre(); at_acq(a, mo); at_rel(a, mo); ty o = *a; *a = (ty)(o + v); return o; } \
    ty __tsan_atomic##bits##_fetch_sub(volatile ty* a, ty v, int mo) { at_pre(); at_acq(a, mo); at_rel(a, mo); ty o = *a; *a = (ty)(o - v); return o; } \
    ty __tsan_atomic##bits##_fetch_and(volatile ty* a, ty v, int mo) { at_pre(); at_acq(a, mo); at_rel(a, mo); ty o = *a; *a = (ty)(o & v); return o; } \
    ty __tsan_atomic##bits##_fetch_or(volatile ty* a, ty v, int mo) { at_pre(); at_acq(a, mo); at_rel(a, mo); ty o = *a; *a = (ty)(o | v); return o; } \
    ty __tsan_atomic##bits##_fetch_xor(volatile ty* a, ty v, int mo) { at_pre(); at_acq(a, mo); at_rel(a, mo); ty o = *a; *a = (ty)(o ^ v); return o; } \
    ty __tsan_atomic##bits##_fetch_nand(volatile ty* a, ty v, int mo) { at_pre(); at_acq(a, mo); at_rel(a, mo); ty o = *a; *a = (ty) ~(o & v); return o; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile ty* a, ty* e, ty v, int mo, int fmo) { \
        at_pre(); if (*a == *e) { at_acq(a, mo); at_rel(a, mo); *a = v; return 1; } at_acq(a, fmo); *e = *a; return 0; } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile ty* a, ty* e, ty v, int mo, int fmo) { \
        at_pre(); if (*a == *e) { at_acq(a, mo); at_rel(a, mo); *a = v; return 1; } at_acq(a, fmo); *e = *a; return 0; } \
    ty __tsan_atomic##bits##_compare_exchange_val(volatile ty* a, ty e, ty v, int mo, int fmo) { \
        at_pre(); ty o = *a; if (o == e) { at_acq(a, mo); at_rel(a, mo); *a = v; } else at_acq(a, fmo); return o; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int) { if (insim()) { sync_point(); acquire(0x10); release(0x10); } }
void __tsan_atomic_signal_fence(int) {}
}
