// Preloaded into a Python process: the seams below the Python extensions.
//
// While a simulated call is under way (sim_begin .. sim_end) the clocks, the random bytes, operator new, the C
// allocator as called by one extension module, Python's own allocator and thread creation are the simulator's.
// Every call through a seam is an event; faults and signals are placed by the number of the event of its kind.
// New threads run to completion before the creating thread goes on, so that one plan is one execution.
#include <dlfcn.h>
#include <errno.h>
#include <link.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <new>

extern "C" {
void *__libc_malloc(size_t);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void __libc_free(void *);

enum { K_MONO, K_REAL, K_NEW, K_MALLOC, K_PY, K_THREAD, K_RAND, K_LOG, K_PYMONO, NK };
struct Plan {
    int64_t fail_at[NK];       // first event of the kind that fails (0: none)
    int64_t fail_n[NK];        // how many in a row
    int64_t sig_at[NK];        // event at which SIGINT arrives
    int64_t step_ns;           // what a read of the monotonic clock takes
    int64_t mono_at, mono_ns;  // at that read, the monotonic clock leaps forward
    int64_t real_at, real_ns;  // at that read, the wall clock is set by so much
    uint64_t rand_seed;
};
struct Counts {
    int64_t n[NK], fired[NK], sig, mono_ns, sig_event[NK];
};
}

static Plan P;
static Counts C;
static volatile int active;
static int64_t mono_now, real_off;
static uint64_t rnd;
static uintptr_t mod_lo, mod_hi;
static uintptr_t cxx_lo, cxx_hi;      // libstdc++, where steady_clock reads the clock
static uintptr_t mm_lo, mm_hi;        // the engine's extension module
static uintptr_t exe_lo, exe_hi;      // the interpreter
static bool py_failed;                // an allocation of the interpreter failed, ever

static int64_t real_mono() {
    static int (*f)(clockid_t, struct timespec *);
    if (!f) f = (int (*)(clockid_t, struct timespec *))dlsym(RTLD_NEXT, "clock_gettime");
    struct timespec ts;
    f(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec * 1000000000LL + ts.tv_nsec;
}

// counts one event; true: it has to fail
static bool event(int k) {
    int64_t i = ++C.n[k];
    if (P.sig_at[k] == i) {
        C.sig++;
        for (int j = 0; j < NK; j++) C.sig_event[j] = C.n[j];
        raise(SIGINT);
    }
    if (P.fail_at[k] && i >= P.fail_at[k] && i < P.fail_at[k] + P.fail_n[k]) {
        C.fired[k]++;
        if (k == K_PY) py_failed = true;
        return true;
    }
    return false;
}

extern "C" {

int clock_gettime(clockid_t id, struct timespec *ts) {
    static int (*f)(clockid_t, struct timespec *);
    if (!f) f = (int (*)(clockid_t, struct timespec *))dlsym(RTLD_NEXT, "clock_gettime");
    if (!active || (id != CLOCK_MONOTONIC && id != CLOCK_REALTIME && id != CLOCK_MONOTONIC_RAW)) return f(id, ts);
    int64_t t;
    if (id == CLOCK_REALTIME) {
        event(K_REAL);
        if (P.real_at && C.n[K_REAL] + C.n[K_MONO] >= P.real_at) real_off += P.real_ns, P.real_at = 0;
        t = 1700000000LL * 1000000000LL + mono_now + real_off;
        if (t < 0) t = 0;
    } else {
        uintptr_t ra = (uintptr_t)__builtin_return_address(0);
        int k = (ra >= cxx_lo && ra < cxx_hi) || (ra >= mm_lo && ra < mm_hi) ? K_MONO : K_PYMONO;
        event(k);
        mono_now += P.step_ns;
        if (k == K_MONO && C.n[K_MONO] == P.mono_at) mono_now += P.mono_ns, C.fired[K_MONO]++;
        t = mono_now;
    }
    ts->tv_sec = t / 1000000000LL;
    ts->tv_nsec = t % 1000000000LL;
    return 0;
}

time_t time(time_t *p) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (p) *p = ts.tv_sec;
    return ts.tv_sec;
}

ssize_t getrandom(void *buf, size_t n, unsigned flags) {
    static ssize_t (*f)(void *, size_t, unsigned);
    if (!f) f = (ssize_t (*)(void *, size_t, unsigned))dlsym(RTLD_NEXT, "getrandom");
    if (!active) return f(buf, n, flags);
    event(K_RAND);
    for (size_t i = 0; i < n; i++) {
        rnd = rnd * 6364136223846793005ULL + 1442695040888963407ULL;
        ((uint8_t *)buf)[i] = rnd >> 56;
    }
    return n;
}

static inline bool mine(void *ra) { return active && (uintptr_t)ra >= mod_lo && (uintptr_t)ra < mod_hi; }

void *malloc(size_t n) {
    if (mine(__builtin_return_address(0)) && event(K_MALLOC)) {
        errno = ENOMEM;
        return nullptr;
    }
    return __libc_malloc(n);
}
void *calloc(size_t n, size_t m) {
    if (mine(__builtin_return_address(0)) && event(K_MALLOC)) {
        errno = ENOMEM;
        return nullptr;
    }
    return __libc_calloc(n, m);
}
void *realloc(void *p, size_t n) {
    if (mine(__builtin_return_address(0)) && event(K_MALLOC)) {
        errno = ENOMEM;
        return nullptr;
    }
    return __libc_realloc(p, n);
}

// The interpreter itself does not survive every failure of its allocator (PyFunction_New of 3.12, for one). A
// crash of its own after such a failure ends the process with status 77 and tells nothing about the extensions.
static void fatal(int sig, siginfo_t *, void *u) {
    uintptr_t pc = ((ucontext_t *)u)->uc_mcontext.gregs[REG_RIP];
    auto in = [&](uintptr_t lo, uintptr_t hi) { return pc >= lo && pc < hi; };
    if (py_failed && !in(mod_lo, mod_hi) && !in(mm_lo, mm_hi) && !in(cxx_lo, cxx_hi)) _exit(77);
    signal(sig, SIG_DFL);
}
void abort(void) noexcept {
    uintptr_t ra = (uintptr_t)__builtin_return_address(0);
    if (py_failed && ra >= exe_lo && ra < exe_hi) _exit(77);
    signal(SIGABRT, SIG_DFL);
    raise(SIGABRT);
    _exit(127);
}

struct Start {
    void *(*fn)(void *);
    void *arg;
    sem_t done;
};
static void *trampoline(void *p) {
    Start *s = (Start *)p;
    void *r = s->fn(s->arg);
    sem_post(&s->done);
    return r;
}
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
    static int (*f)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
    if (!f) f = (int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *))dlsym(RTLD_NEXT, "pthread_create");
    if (!active) return f(t, a, fn, arg);
    if (event(K_THREAD)) return EAGAIN;
    Start s{fn, arg, {}};
    sem_init(&s.done, 0, 0);
    int r = f(t, a, trampoline, &s);
    if (r == 0)
        while (sem_wait(&s.done)) {}
    sem_destroy(&s.done);
    return r;
}

// ------------------------------------------------------------- driven from Python
typedef struct {
    void *ctx;
    void *(*malloc)(void *, size_t);
    void *(*calloc)(void *, size_t, size_t);
    void *(*realloc)(void *, void *, size_t);
    void (*free)(void *, void *);
} PyAlloc;
static PyAlloc orig[3];
static int py_on;
#define HOOK(d)                                                                                                        \
    static void *m##d(void *c, size_t n) { return py_on && active && event(K_PY) ? nullptr : orig[d].malloc(c, n); }  \
    static void *c##d(void *c, size_t n, size_t m) {                                                                   \
        return py_on && active && event(K_PY) ? nullptr : orig[d].calloc(c, n, m);                                     \
    }                                                                                                                  \
    static void *r##d(void *c, void *p, size_t n) {                                                                    \
        return py_on && active && event(K_PY) ? nullptr : orig[d].realloc(c, p, n);                                    \
    }                                                                                                                  \
    static void f##d(void *c, void *p) { orig[d].free(c, p); }
HOOK(1)
HOOK(2)

void sim_hook_python() {
    auto get = (void (*)(int, PyAlloc *))dlsym(RTLD_DEFAULT, "PyMem_GetAllocator");
    auto set = (void (*)(int, PyAlloc *))dlsym(RTLD_DEFAULT, "PyMem_SetAllocator");
    get(1, &orig[1]);
    get(2, &orig[2]);
    PyAlloc a1 = {orig[1].ctx, m1, c1, r1, f1}, a2 = {orig[2].ctx, m2, c2, r2, f2};
    set(1, &a1);
    set(2, &a2);
}

struct Find {
    const char *name;
    uintptr_t *lo, *hi;
};
static int look(struct dl_phdr_info *i, size_t, void *p) {
    const char *want = ((Find *)p)->name;
    size_t a = strlen(i->dlpi_name), b = strlen(want);
    if (a < b || !strstr(i->dlpi_name, want)) return 0;
    for (int k = 0; k < i->dlpi_phnum; k++)
        if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_X)) {
            *((Find *)p)->lo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
            *((Find *)p)->hi = *((Find *)p)->lo + i->dlpi_phdr[k].p_memsz;
        }
    return 1;
}
static int first(struct dl_phdr_info *i, size_t, void *) {
    for (int k = 0; k < i->dlpi_phnum; k++)
        if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_X)) {
            exe_lo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
            exe_hi = exe_lo + i->dlpi_phdr[k].p_memsz;
        }
    struct sigaction a;
    memset(&a, 0, sizeof a);
    a.sa_sigaction = fatal;
    a.sa_flags = SA_SIGINFO | SA_NODEFER;
    const int sigs[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL};
    for (int s : sigs) sigaction(s, &a, nullptr);
    return 1;
}
int sim_module(const char *suffix) {
    Find f{suffix, &mod_lo, &mod_hi}, g{"/libstdc++.so", &cxx_lo, &cxx_hi};
    mod_lo = mod_hi = 0;
    Find h{"/_minorminer.", &mm_lo, &mm_hi};
    dl_iterate_phdr(look, &f);
    dl_iterate_phdr(look, &g);
    dl_iterate_phdr(look, &h);
    dl_iterate_phdr(first, nullptr);
    return mod_hi > mod_lo;
}

void sim_begin(const Plan *p, int py) {
    P = *p;
    memset(&C, 0, sizeof C);
    if (!mono_now) mono_now = 1000000000000LL;
    rnd = P.rand_seed;
    py_on = py;
    active = 1;
}
void sim_end(Counts *c) {
    active = 0;
    C.mono_ns = mono_now;
    *c = C;
}
void sim_advance(int64_t ns) { mono_now += ns; }
void sim_log() {
    if (active) event(K_LOG);
}
int64_t sim_count(int k) { return C.n[k]; }
}

static void *alloc(size_t n) {
    if (active && event(K_NEW)) return nullptr;
    return __libc_malloc(n ? n : 1);
}
void *operator new(size_t n) {
    void *p = alloc(n);
    if (!p) throw std::bad_alloc();
    return p;
}
void *operator new[](size_t n) {
    void *p = alloc(n);
    if (!p) throw std::bad_alloc();
    return p;
}
void *operator new(size_t n, const std::nothrow_t &) noexcept { return alloc(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return alloc(n); }
void operator delete(void *p) noexcept { __libc_free(p); }
void operator delete[](void *p) noexcept { __libc_free(p); }
void operator delete(void *p, size_t) noexcept { __libc_free(p); }
void operator delete[](void *p, size_t) noexcept { __libc_free(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { __libc_free(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { __libc_free(p); }
