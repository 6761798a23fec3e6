// Deterministic simulator core. Not instrumented; provides the OpenMP runtime (GOMP ABI), the access
// callbacks emitted by -fsanitize=thread, allocation, and file reading for the code under test.
#include "core.h"
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <fcntl.h>
#include <link.h>
#include <map>
#include <new>
#include <set>
#include <vector>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <ctime>
#include <sys/time.h>
#include <unistd.h>

extern "C" {
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
int __real_posix_memalign(void **, size_t, size_t);
void *__real_aligned_alloc(size_t, size_t);
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
void fiber_switch(void **save, void *to);
void fiber_entry_thunk();
}

asm(R"(
.text
.globl fiber_switch
.type fiber_switch,@function
fiber_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    subq $8,%rsp
    stmxcsr (%rsp)
    fnstcw 4(%rsp)
    movq %rsp,(%rdi)
    movq %rsi,%rsp
    ldmxcsr (%rsp)
    fldcw 4(%rsp)
    addq $8,%rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size fiber_switch,.-fiber_switch
.globl fiber_entry_thunk
.type fiber_entry_thunk,@function
fiber_entry_thunk:
    .cfi_startproc
    .cfi_undefined rip
    andq $-16,%rsp
    movq %r12,%rdi
    call fiber_main
    ud2
    .cfi_endproc
.size fiber_entry_thunk,.-fiber_entry_thunk
)");

namespace sim {

const char *policy_names[] = {"serial", "random", "chunk", "lockstep", "pct", "writestall", "straggler"};
int out_fd = 1;
volatile bool abort_is_failstop = false;

uint64_t mix(uint64_t a, uint64_t b) {
    Rng r(a * 0x9E3779B97F4A7C15ull + b + 0x1234567);
    r.next();
    return r.next();
}

void FaultCounts::add(const FaultCounts &o) {
    const uint64_t *p = (const uint64_t *)&o;
    uint64_t *q = (uint64_t *)this;
    for (size_t i = 0; i < sizeof(*this) / 8; i++) q[i] += p[i];
}

template <typename T> struct MVec {  // vector on the real heap (never the arena)
    T *d = nullptr;
    size_t n = 0, cap = 0;
    void push(const T &t) {
        if (n == cap) {
            cap = cap ? cap * 2 : 64;
            d = (T *)__real_realloc((void *)d, cap * sizeof(T));
        }
        __real_memcpy((void *)&d[n++], (const void *)&t, sizeof(T));
    }
    T &operator[](size_t i) { return d[i]; }
    void clear() { n = 0; }
};

// ---------------------------------------------------------------- state
static const int MAXF = 64;
static const size_t STACK = 512 * 1024;
static char *const STACK_BASE = (char *)0x100000000000ull;
static char *const ARENA = (char *)0x200000000000ull;
static const size_t ARENA_SZ = 256ull << 20;
static unsigned char *const SHADOW = (unsigned char *)0x300000000000ull;
enum { SH_NONE = 0, SH_LIVE = 1, SH_FREED = 2 };

struct Fiber;
struct WS {  // work-share
    bool init, claimed;
    long next, end, incr, chunk;
    int kind;  // 0 dynamic 1 guided 2 static
    void *copypriv;
    bool copied;
    long taken, turn;    // chunks handed out; chunk whose ordered regions may run
};
struct Team {
    int n;
    Fiber *mem[MAXF];
    int active;         // members that have not reached the end of the region
    int arrived;
    uint64_t gen;
    MVec<WS> ws;
    Team *parent;
};
enum State { FREE, READY, BLOCKED, DONE };
struct Fiber {
    int id;
    void *sp;
    State st;
    uint64_t until;      // stalled until this virtual time
    bool (*cond)(Fiber *);
    void *carg;
    uint64_t cgen;
    bool held;
    Team *team;
    int tid;
    int ws;              // work-shares entered (structural)
    int lagidx;          // work-shares entered (for the lag bound)
    bool at_barrier, region_done;
    int sut;
    int region;          // depth of enclosing parallel regions
    int anc[8];          // thread number at each enclosing level
    long oseq;           // chunk held of an ordered loop
    void *fnarg;
    void (*fn)(void *);
    const std::function<void()> *app;
    uint64_t eh[2];
    double prio;
    int64_t static_round;
    bool inloop;         // between the start and the end of a loop handed out by the runtime
    Team solo;
};
struct Block { size_t off, size; int state; bool sut; };
struct Lock { void *key; Fiber *owner; int depth; };

static struct G {
    bool active = false;
    RunConfig cfg;
    const Schedule *sch;
    Rng rng;
    Fiber f[MAXF];
    Fiber *cur = nullptr;
    void *host_sp = nullptr;
    uint64_t host_eh[2];
    uint64_t steps, vtime, hash, outhash, preempts;
    bool rounds_seen;    // sweeps were told apart by the repeated stores
    int64_t wall_off, slow_us;   // clock steps; time passed in stalled calls
    int64_t gap;
    int policy;
    double p;          // parameter of the policy
    int quantum;
    int victim;
    uint64_t victim_from;
    uint64_t pct_points[16];
    int npct;
    double wstall_p;
    double stall_p;
    uint64_t stall_len;
    double late_p;
    MVec<std::pair<uint64_t, int>> sw;
    MVec<int64_t> dec;
    size_t rpos, dpos;
    bool violated;
    char cls[128];
    char msg[1024];
    bool ended;
    FaultCounts fc;
    int max_team;
    // memory
    size_t top;
    MVec<Block> blocks;
    int alloc_at, allocs;
    bool alloc_fired;
    MVec<Lock> locks;
    const std::function<void()> *body;
    bool failstop;
    bool trivial;
} g;

bool in_run() { return g.active; }
void set_trivial() { g.trivial = true; }

static uint64_t *eh_globals() { return (uint64_t *)abi::__cxa_get_globals(); }

// ---------------------------------------------------------------- static storage of the code under test
// The build puts the writable static data of the code under test in sections sutdata and sutbss; every run starts from
// the image taken before the first run, so that a run never depends on the runs before it. Thread-local storage is
// exchanged at every switch of the simulated thread.
}  // namespace sim
extern "C" {
extern char __start_sutdata[] __attribute__((weak)), __stop_sutdata[] __attribute__((weak));
extern char __start_sutbss[] __attribute__((weak)), __stop_sutbss[] __attribute__((weak));
}
namespace sim {
static char *img_data, *img_bss, *tls_at;
static const char *tls_init;
static size_t tls_file, tls_size;
static char *tls_img[MAXF], *tls_host;
static std::size_t len_data() { return __start_sutdata ? __stop_sutdata - __start_sutdata : 0; }
static std::size_t len_bss() { return __start_sutbss ? __stop_sutbss - __start_sutbss : 0; }
static int phdr_cb(struct dl_phdr_info *i, size_t, void *) {
    for (int k = 0; k < i->dlpi_phnum; k++)
        if (i->dlpi_phdr[k].p_type == PT_TLS) {
            const ElfW(Phdr) &h = i->dlpi_phdr[k];
            size_t al = h.p_align ? h.p_align : 1;
            tls_init = (const char *)(i->dlpi_addr + h.p_vaddr);
            tls_file = h.p_filesz; tls_size = h.p_memsz;
            tls_at = (char *)__builtin_thread_pointer() - ((h.p_memsz + al - 1) / al) * al;
        }
    return 1;   // the first object is the executable
}
static void statics_init() {
    img_data = (char *)__real_malloc(len_data() + 1);
    __real_memcpy(img_data, __start_sutdata, len_data());
    img_bss = (char *)__real_malloc(len_bss() + 1);
    __real_memcpy(img_bss, __start_sutbss, len_bss());
    dl_iterate_phdr(phdr_cb, nullptr);
    for (int i = 0; i < MAXF && tls_size; i++) tls_img[i] = (char *)__real_malloc(tls_size);
    if (tls_size) tls_host = (char *)__real_malloc(tls_size);
}
static void statics_reset() {
    if (len_data()) __real_memcpy(__start_sutdata, img_data, len_data());
    if (len_bss()) __real_memcpy(__start_sutbss, img_bss, len_bss());
}
static void tls_fresh(char *d) {
    if (!tls_size) return;
    __real_memset(d, 0, tls_size);
    __real_memcpy(d, tls_init, tls_file);
}

// ---------------------------------------------------------------- ending a run
static void to_host() {
    void *dummy;
    fiber_switch(&dummy, g.host_sp);
    __builtin_unreachable();
}
static void set_violation(const char *cls, const char *msg) {
    if (g.violated) return;
    g.violated = true;
    snprintf(g.cls, sizeof g.cls, "%s", cls);
    snprintf(g.msg, sizeof g.msg, "%s", msg);
}
void report(const std::string &cls, const std::string &msg) { set_violation(cls.c_str(), msg.c_str()); }
bool failed() { return g.violated; }
void fail(const std::string &cls, const std::string &msg) {
    set_violation(cls.c_str(), msg.c_str());
    to_host();
    __builtin_unreachable();
}
[[noreturn]] static void failf(const char *cls, const char *fmt, ...) {
    char b[900];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    set_violation(cls, b);
    to_host();
    __builtin_unreachable();
}
static void sig_handler(int s, siginfo_t *si, void *) {
    if (!g.active || !g.cur) {
        const char m[] = "simulator: signal outside a run\n";
        (void)!::syscall(SYS_write, 2, m, sizeof m - 1);
        signal(s, SIG_DFL);
        raise(s);
        return;
    }
    if (s == SIGVTALRM) { set_violation("hang", "the operation does not terminate"); to_host(); }
    char *a = (char *)si->si_addr;
    const char *what = s == SIGFPE ? "arithmetic exception" : s == SIGILL ? "illegal instruction" : "invalid memory access";
    if (a >= STACK_BASE && a < STACK_BASE + (size_t)MAXF * STACK) what = "stack exhausted";
    set_violation("crash", what);
    to_host();
}

// ---------------------------------------------------------------- recorded choices
int64_t choose(int64_t n) {
    if (n <= 1) return 0;
    int64_t v;
    if (g.sch->replay)
        v = g.dpos < g.sch->decisions.size() ? g.sch->decisions[g.dpos++] : 0;
    else
        v = (int64_t)g.rng.below(n);
    if (v < 0 || v >= n) v = 0;
    g.dec.push(v);
    return v;
}
static int64_t choose_p(double p, int64_t n) {  // 0 with probability 1-p, else 1..n
    int64_t v;
    if (g.sch->replay)
        v = g.dpos < g.sch->decisions.size() ? g.sch->decisions[g.dpos++] : 0;
    else
        v = g.rng.chance(p) ? 1 + (int64_t)g.rng.below(n) : 0;
    if (v < 0 || v > n) v = 0;
    g.dec.push(v);
    return v;
}

// ---------------------------------------------------------------- scheduler
static bool lag_ok(Fiber *f) {
    if (g.cfg.lag < 0) return true;
    Team *t = f->team;
    for (int i = 0; i < t->n; i++) {
        Fiber *m = t->mem[i];
        if (m == f || !m || m->region_done || m->at_barrier) continue;
        if (m->lagidx < f->lagidx - g.cfg.lag) return false;
    }
    return true;
}
static bool runnable(Fiber *f) {
    if (f->st == READY) return f->until <= g.vtime;
    if (f->st == BLOCKED) return f->until <= g.vtime && f->cond(f);
    return false;
}
static int collect(Fiber **r) {
    for (;;) {
        int n = 0;
        for (int i = 0; i < MAXF; i++)
            if (g.f[i].st == READY || g.f[i].st == BLOCKED)
                if (runnable(&g.f[i])) r[n++] = &g.f[i];
        if (n) return n;
        // nobody can run now: let time jump to the first stalled fiber that could
        uint64_t best = ~0ull;
        for (int i = 0; i < MAXF; i++) {
            Fiber *f = &g.f[i];
            if ((f->st == READY || (f->st == BLOCKED && f->cond(f))) && f->until > g.vtime && f->until < best) best = f->until;
        }
        if (best != ~0ull) { g.vtime = best; continue; }
        // the lag bound is a scheduling preference: release the one least ahead
        Fiber *h = nullptr;
        for (int i = 0; i < MAXF; i++)
            if (g.f[i].st == BLOCKED && g.f[i].held && (!h || g.f[i].lagidx < h->lagidx)) h = &g.f[i];
        if (h) { h->held = false; h->st = READY; h->until = 0; continue; }
        return 0;
    }
}
static void switch_to(Fiber *t) {
    Fiber *c = g.cur;
    if (t->st == BLOCKED) { t->st = READY; t->held = false; }
    if (t == c) return;
    uint64_t *e = eh_globals();
    c->eh[0] = e[0]; c->eh[1] = e[1];
    e[0] = t->eh[0]; e[1] = t->eh[1];
    if (tls_size) {
        __real_memcpy(tls_img[c->id], tls_at, tls_size);
        __real_memcpy(tls_at, tls_img[t->id], tls_size);
    }
    g.cur = t;
    fiber_switch(&c->sp, t->sp);
}
static inline void hash_in(uint64_t v) { g.hash = (g.hash ^ v) * 0x9FB21C651E98DF25ull; g.hash ^= g.hash >> 29; }

static void set_gap() {
    if (g.sch->replay) {
        while (g.rpos < g.sch->switches.size() && g.sch->switches[g.rpos].first <= g.steps) g.rpos++;
        g.gap = g.rpos < g.sch->switches.size() ? (int64_t)(g.sch->switches[g.rpos].first - g.steps) : (int64_t)1 << 60;
        return;
    }
    switch (g.policy) {
    case SERIAL: case CHUNK: g.gap = (int64_t)1 << 60; break;
    case RANDOM: case WSTALL: case STRAGGLER: {
        double u = g.rng.unit();
        // geometric
        double v = g.p >= 1 ? 1 : 1 + __builtin_log(1 - u) / __builtin_log(1 - g.p);
        g.gap = v > 1e12 ? (int64_t)1e12 : (int64_t)v;
        if (g.gap < 1) g.gap = 1;
        break;
    }
    case LOCKSTEP: g.gap = g.quantum; break;
    case PCT: {
        int64_t best = (int64_t)1 << 60;
        for (int i = 0; i < g.npct; i++)
            if (g.pct_points[i] > g.steps && (int64_t)(g.pct_points[i] - g.steps) < best) best = g.pct_points[i] - g.steps;
        g.gap = best;
        break;
    }
    }
}
static Fiber *pick(Fiber **r, int n, bool forced) {
    // replay: the recorded target if there is one for this step, else stay / lowest id
    if (g.sch->replay) {
        size_t k = g.rpos;
        while (k < g.sch->switches.size() && g.sch->switches[k].first < g.steps) k++;
        if (k < g.sch->switches.size() && g.sch->switches[k].first == g.steps)
            for (int i = 0; i < n; i++)
                if (r[i]->id == g.sch->switches[k].second) return r[i];
        if (!forced) return g.cur;
        return r[0];
    }
    if (n == 1) return r[0];
    switch (g.policy) {
    case LOCKSTEP: {
        for (int i = 0; i < n; i++)
            if (r[i]->id > g.cur->id) return r[i];
        return r[0];
    }
    case PCT: {
        Fiber *b = r[0];
        for (int i = 1; i < n; i++)
            if (r[i]->prio > b->prio) b = r[i];
        return b;
    }
    case STRAGGLER:
        if (g.steps >= g.victim_from) {
            Fiber *c[MAXF];
            int m = 0;
            for (int i = 0; i < n; i++)
                if (r[i]->tid != g.victim || r[i]->team->n == 1) c[m++] = r[i];
            if (m && m < n && !g.rng.chance(0.002)) { g.fc.straggler++; return c[g.rng.below(m)]; }
        }
        return r[g.rng.below(n)];
    default: return r[g.rng.below(n)];
    }
}
static void record(int id) { g.sw.push(std::make_pair(g.steps, id)); hash_in(g.steps * 64 + id); }

static void check_steps() {
    if (g.steps > g.cfg.max_steps)
        failf("no-progress", "no progress: the operation did not finish within %llu scheduler steps",
              (unsigned long long)g.cfg.max_steps);
}
// The current fiber cannot continue (blocked or finished): somebody else must run.
static void schedule_forced() {
    g.steps++; g.vtime++;
    check_steps();
    Fiber *r[MAXF];
    int n = collect(r);
    if (!n) failf("deadlock", "deadlock: every thread waits and none can proceed");
    Fiber *t = pick(r, n, true);
    if (t != g.cur) record(t->id);
    set_gap();
    switch_to(t);
}
static void block(bool (*cond)(Fiber *), bool held = false) {
    Fiber *c = g.cur;
    if (cond(c)) return;
    c->st = BLOCKED;
    c->cond = cond;
    c->held = held;
    do schedule_forced(); while (c->st == BLOCKED);
}
static void preempt() {
    Fiber *c = g.cur;
    if (g.policy == PCT && !g.sch->replay) c->prio = -(double)g.steps;  // change point: lowest priority
    Fiber *r[MAXF];
    int n = collect(r);
    Fiber *t = n ? pick(r, n, false) : c;
    bool ok = false;
    for (int i = 0; i < n; i++) ok |= r[i] == t;
    if (!ok) t = c;
    if (t != c) { record(t->id); g.preempts++; g.fc.preempt++; }
    set_gap();
    if (t != c) switch_to(t);
}
static void stall_current(uint64_t len) {
    g.cur->until = g.vtime + len;
    Fiber *r[MAXF];
    int n = 0;
    for (int i = 0; i < MAXF; i++)
        if ((g.f[i].st == READY || g.f[i].st == BLOCKED) && runnable(&g.f[i])) r[n++] = &g.f[i];
    if (!n) { g.cur->until = 0; return; }
    Fiber *t = pick(r, n, true);
    record(t->id);
    g.preempts++;
    set_gap();
    switch_to(t);
}
// the values that the code under test stores in a watched vector, in the order of the stores
static const int WMAX = 256, WKEEP = 24;
static struct { char *base; int n, bs, seen_n; char *pend; size_t pend_n; int cnt[WMAX], reads[WMAX]; double v[WMAX][WKEEP], lo[WMAX], hi[WMAX]; } wt;
static struct { const char *base; int n; int reads[WMAX]; } wr;   // a vector of inputs
static void watch_put(int i, double x) {
    if (!(x >= wt.lo[i])) wt.lo[i] = x;
    if (!(x <= wt.hi[i])) wt.hi[i] = x;
    for (int k = 0; k < wt.cnt[i] && k < WKEEP; k++)
        if (wt.v[i][k] == x) return;
    if (wt.cnt[i] < WKEEP) wt.v[i][wt.cnt[i]] = x;
    wt.cnt[i]++;
}
static void watch_flush() {
    char *a = wt.pend, *e = a + wt.pend_n;
    wt.pend = nullptr;
    for (int i = (int)((a - wt.base) / 8); i < wt.n && wt.base + 8 * i < e; i++) {
        double x;
        __real_memcpy(&x, wt.base + 8 * i, 8);
        watch_put(i, x);
    }
}
// The stores with the time since which the storing thread has read their inputs.  Reads that go back two stored rows
// are counted, so computing a row before the previous one is stored is allowed for.
struct Seen { uint64_t first, prev, s; int row; uint64_t in[4]; };
struct Put { uint64_t at, from; int i; };
static struct { Seen f[MAXF]; MVec<Put> log; } ep;
static void epoch_put(int i) {
    Seen &f = ep.f[g.cur->id];
    int k = i % wt.bs;
    if (f.row != i / wt.bs || k >= 256 || (f.in[k / 64] >> (k % 64) & 1)) {
        if (f.prev || f.first) f.s = f.prev ? f.prev : f.first;
        f.prev = f.first; f.first = 0;
        f.row = i / wt.bs;
        __real_memset(f.in, 0, sizeof f.in);
    }
    if (k < 256) f.in[k / 64] |= 1ull << (k % 64);
    ep.log.push({g.steps, f.s, i});
}
// Epochs: one ends when every entry holds a value whose inputs were all read after the previous epoch ended, and no
// later store has older inputs.
int watched_epochs() {
    size_t n = ep.log.n;
    std::vector<uint64_t> suf(n + 1, ~0ull);
    for (size_t j = n; j-- > 0;) suf[j] = std::min(suf[j + 1], ep.log[j].from);
    int epochs = 0;
    uint64_t from = 1;
    std::vector<char> fresh(wt.seen_n, 0);
    int left = wt.seen_n;
    for (size_t j = 0; j < n; j++) {
        const Put &u = ep.log[j];
        bool ok = u.from >= from;
        if (ok != (bool)fresh[u.i]) { fresh[u.i] = ok; left += ok ? -1 : 1; }
        if (left == 0 && suf[j + 1] >= from) {
            epochs++;
            from = u.at;
            fresh.assign(wt.seen_n, 0);
            left = wt.seen_n;
        }
    }
    return epochs;
}
int watched_stores(int i) {
    int n = 0;
    for (size_t j = 0; j < ep.log.n; j++) n += ep.log[j].i == i;
    return n;
}
int watched_reads(int i) { return wt.reads[i]; }
void watch_input(const double *p, int n) {
    wr.base = (const char *)p; wr.n = n > WMAX ? 0 : n;
    for (int i = 0; i < wr.n; i++) wr.reads[i] = 0;
}
int input_reads(int i) { return wr.reads[i]; }
bool sweeps_guessed() { return g.rounds_seen; }
static inline void watch_read(const void *p, size_t n) {
    if (__builtin_expect(wt.n == 0, 1)) return;
    const char *a = (const char *)p;
    if (wr.n && a + n > wr.base && a < wr.base + 8 * wr.n) {
        for (ptrdiff_t i = a < wr.base ? 0 : (a - wr.base) / 8; i < wr.n && wr.base + 8 * i < a + n; i++) wr.reads[i]++;
        return;
    }
    if (a + n <= wt.base || a >= wt.base + 8 * wt.n) return;
    Seen &f = ep.f[g.cur->id];
    if (!f.first) f.first = g.steps;
    for (ptrdiff_t i = a < wt.base ? 0 : (a - wt.base) / 8; i < wt.n && wt.base + 8 * i < a + n; i++) wt.reads[i]++;
}
static inline void watch_write(const void *p, size_t n) {   // the running fiber stores there before its next scheduling point
    if (__builtin_expect(wt.n == 0, 1)) return;
    char *a = (char *)p, *e = a + n, *we = wt.base + 8 * wt.n;
    if (e <= wt.base || a >= we) return;
    if (a < wt.base) a = wt.base;
    if (wt.pend) watch_flush();   // another fiber's store, its last action before it ended
    wt.pend = a; wt.pend_n = e - a;
    for (int i = (int)((a - wt.base) / 8); i < wt.n && wt.base + 8 * i < e; i++) epoch_put(i);
}
void watch(const double *p, int n, bool initial, int bs) {
    wt.pend = nullptr; wt.bs = bs;
    wt.base = (char *)p; wt.n = n > WMAX ? 0 : n;
    for (int i = 0; i < wt.n; i++) {
        wt.cnt[i] = 0; wt.reads[i] = 0; wt.lo[i] = 1e300; wt.hi[i] = -1e300;
        watch_put(i, initial ? p[i] : 0.0);
    }
    for (auto &f : ep.f) { f.first = f.prev = f.s = 0; f.row = -1; }
    ep.log.clear();
    wt.seen_n = wt.n;
}
bool watched(int i, std::vector<double> &vals, double &lo, double &hi) {
    if (wt.pend) watch_flush();
    lo = wt.lo[i]; hi = wt.hi[i];
    bool all = wt.cnt[i] <= WKEEP;
    vals.assign(wt.v[i], wt.v[i] + (all ? wt.cnt[i] : WKEEP));
    return all;
}
void watch_end() { wt.n = 0; wr.n = 0; wt.pend = nullptr; }
static inline void step_point(uint64_t code, bool write) {
    if (__builtin_expect(wt.pend != nullptr, 0)) watch_flush();
    if (!g.active || !g.cur->sut) return;
    g.steps++; g.vtime++;
    if (__builtin_expect(g.steps > g.cfg.max_steps, 0)) check_steps();
    hash_in(code ^ ((uint64_t)g.cur->id << 56));
    if (__builtin_expect(g.cur->region > 0 || g.cur->app, 1) && !g.sch->replay) {
        if (write && g.wstall_p > 0 && g.rng.chance(g.wstall_p)) {
            uint64_t len = 1ull << g.rng.range(2, 13);
            g.fc.wstall++;
            stall_current(len);
            return;
        }
        if (g.stall_p > 0 && g.rng.chance(g.stall_p)) {
            g.fc.stall++;
            stall_current(1 + g.rng.below(g.stall_len));
            return;
        }
    }
    if (__builtin_expect(--g.gap <= 0, 0)) preempt();
}
static void rt_point(int code) {  // runtime call: scheduling point for every policy
    if (!g.active || !g.cur->sut) return;
    if (!g.sch->replay && g.policy == CHUNK && g.rng.chance(g.p)) g.gap = 1;
    step_point(0x1000000ull + code, false);
}
void yield_point() {
    if (!g.active) return;
    Fiber *c = g.cur;
    int s = c->sut;
    c->sut = 1;
    rt_point(77);
    c->sut = s;
}

// ---------------------------------------------------------------- memory
static inline uint64_t addr_code(const void *p) {
    char *a = (char *)p;
    if (a >= ARENA && a < ARENA + ARENA_SZ) return (uint64_t)(a - ARENA) * 2 + 1;
    if (a >= STACK_BASE && a < STACK_BASE + (size_t)MAXF * STACK) return (uint64_t)(a - STACK_BASE) * 2;
    return 0x7777;
}
static void bad_access(const void *p, size_t n, bool w, int sh) {
    size_t off = (char *)p - ARENA;
    long best = -1;
    for (size_t i = 0; i < g.blocks.n; i++)
        if (g.blocks[i].off <= off + 64) best = (long)i;
    const char *k = sh == SH_FREED ? "released memory" : "memory outside any block";
    if (best >= 0)
        failf(sh == SH_FREED ? "use-after-free" : "out-of-bounds",
              "%s of %zu bytes in %s: offset %ld relative to a block of %zu bytes (block %ld)", w ? "write" : "read", n,
              k, (long)off - (long)g.blocks[best].off, g.blocks[best].size, best);
    failf("out-of-bounds", "%s of %zu bytes in %s", w ? "write" : "read", n, k);
}
static inline void check_mem(const void *p, size_t n, bool w) {
    char *a = (char *)p;
    if (a >= ARENA && a < ARENA + ARENA_SZ && n) {
        size_t o = a - ARENA;
        if (__builtin_expect(SHADOW[o] != SH_LIVE, 0)) bad_access(p, n, w, SHADOW[o]);
        if (__builtin_expect(SHADOW[o + n - 1] != SH_LIVE, 0)) bad_access(p, n, w, SHADOW[o + n - 1]);
    }
}
// A loop whose iterations the compiler splits statically makes no runtime call, so its sweeps are not seen as
// work-shares.  Outside the loops of the runtime, a thread that stores again where it has stored starts a new round,
// and the bound on the lag between the threads is applied there.
static const unsigned RK = 1024;
static struct Rounds { uint32_t gen = 0, n = 0; uint32_t at[RK] = {}; const void *key[RK]; } rounds[MAXF];
static inline void rounds_clear(Fiber *f) {
    Rounds &r = rounds[f->id];
    r.n = 0;
    if (++r.gen == 0) { __real_memset(r.at, 0, sizeof r.at); r.gen = 1; }
}
static void enter_share();
static inline void round_write(const void *p) {
    Fiber *c = g.cur;
    if (g.cfg.lag < 0 || c->inloop || c->region == 0 || c->team->n <= 1) return;
    if ((char *)p < ARENA || (char *)p >= ARENA + ARENA_SZ) return;
    Rounds &r = rounds[c->id];
    for (unsigned h = (unsigned)(((uintptr_t)p >> 3) * 0x9E3779B1u) >> 8;; h++) {
        unsigned k = h % RK;
        if (r.at[k] != r.gen) {
            if (r.n >= RK * 3 / 4) return;
            r.at[k] = r.gen; r.key[k] = p; r.n++;
            return;
        }
        if (r.key[k] == p) break;
    }
    g.rounds_seen = true;
    enter_share();   // clears the set
    round_write(p);
}
void stores(const void *p, size_t n) { if (g.active) check_mem(p, n, true); }
static inline void acc(const void *p, size_t n, bool w) {
    if (!g.active || !g.cur->sut) return;
    check_mem(p, n, w);
    if (w) round_write(p);
    step_point(addr_code(p) * 4 + (w ? 2 : 0), w);
    if (w) watch_write(p, n);
    else watch_read(p, n);
}
static void poison(char *p, size_t n) {
    switch (g.cfg.poison) {
    case 0: __real_memset(p, 0, n); break;
    case 1: __real_memset(p, 0xFF, n); break;                  // NaN / -1
    case 2: __real_memset(p, 0x7F, n); break;                  // huge
    case 3: for (size_t i = 0; i < n; i++) p[i] = (i % 8 == 7) ? 0x3F : (i % 8 == 6) ? (char)0xF8 : 0; break;  // 1.5
    default: for (size_t i = 0; i < n; i++) p[i] = (char)(0x9D + 31 * i + g.blocks.n); break;
    }
}
static std::map<size_t, std::vector<size_t>> spare;   // by size: released blocks that may be handed out again, last first
static void *arena_get(size_t n, size_t align, bool sut) {
    if (align < 16) align = 16;
    if (!spare.empty()) {
        auto it = spare.find(n);
        if (it != spare.end() && !it->second.empty() && g.blocks[it->second.back()].off % align == 0) {
            Block &b = g.blocks[it->second.back()];
            it->second.pop_back();
            b.state = SH_LIVE;
            b.sut = sut;
            __real_memset(SHADOW + b.off, SH_LIVE, n);
            if (sut) { poison(ARENA + b.off, n); g.fc.poison++; }
            return ARENA + b.off;
        }
    }
    size_t off = (g.top + 64 + align - 1) / align * align;
    if (off + n + 128 > ARENA_SZ) failf("harness-arena", "simulated memory exhausted");
    g.top = off + n + 32;
    char *p = ARENA + off;
    __real_memset(SHADOW + off, SH_LIVE, n);
    uint64_t idx = g.blocks.n;
    __real_memcpy(p - 8, &idx, 8);
    Block b = {off, n, SH_LIVE, sut};
    if (sut) { poison(p, n); g.fc.poison++; }
    g.blocks.push(b);
    return p;
}
static void arena_put(void *vp) {
    char *p = (char *)vp;
    uint64_t idx;
    __real_memcpy(&idx, p - 8, 8);
    size_t off = p - ARENA;
    if (idx >= g.blocks.n || g.blocks[idx].off != off) {
        if (!g.active) return;
        failf("bad-free", "release of a pointer that is not the start of an allocated block");
    }
    if (g.blocks[idx].state != SH_LIVE) {
        if (!g.active) return;
        failf("double-free", "release of a block of %zu bytes that was already released", g.blocks[idx].size);
    }
    if (g.active && !g.blocks[idx].sut && g.cur->sut) failf("bad-free", "release of the caller's memory (block of %zu bytes)", g.blocks[idx].size);
    g.blocks[idx].state = SH_FREED;
    __real_memset(SHADOW + off, SH_FREED, g.blocks[idx].size);
    __real_memset(p, 0xDB, g.blocks[idx].size);
}
static inline bool in_arena(const void *p) { return (char *)p >= ARENA && (char *)p < ARENA + ARENA_SZ; }
static inline bool sut_alloc() { return g.active && g.cur && g.cur->sut; }
static bool inject_alloc_failure() {
    if (g.cur->region > 0) return false;  // inside a parallel region no exception could leave
    int k = g.allocs++;
    if (g.alloc_at >= 0 && k == g.alloc_at) {
        g.alloc_fired = true;
        g.fc.alloc_fail++;
        return true;
    }
    return false;
}
static void *sut_malloc(size_t n, size_t align) {
    rt_point(90);
    if (inject_alloc_failure()) return nullptr;
    if (n > (24ull << 20) || g.top + n + align + 4096 > ARENA_SZ - (32ull << 20)) return nullptr;  // beyond the simulated machine
    return arena_get(n, align, true);
}
// From here on memory released so far is used again, the earliest block of a size first: what repeats an earlier sequence
// of allocations gets the same addresses.
void recycle() {
    spare.clear();
    for (size_t i = g.blocks.n; i-- > 0;)
        if (g.blocks[i].state == SH_FREED) spare[g.blocks[i].size].push_back(i);
}
void *arena_alloc(size_t n, size_t align) { return arena_get(n, align, false); }
void arena_release(void *p) { if (p) arena_put(p); }
// blocks still allocated that neither the static nor the thread-local data of the code under test lead to
static std::vector<size_t> leaked() {
    std::vector<size_t> live, todo;
    std::map<size_t, size_t> at;
    for (size_t i = 0; i < g.blocks.n; i++)
        if (g.blocks[i].sut && g.blocks[i].state == SH_LIVE) { live.push_back(i); at[g.blocks[i].off] = i; }
    if (live.empty()) return live;
    std::set<size_t> held;
    auto scan = [&](const char *p, size_t n) {
        if (!p) return;
        for (size_t o = 0; o + 8 <= n; o += 8) {
            uint64_t v;
            __real_memcpy(&v, p + o, 8);
            if (v < (uint64_t)ARENA || v >= (uint64_t)ARENA + ARENA_SZ) continue;
            auto it = at.upper_bound((size_t)(v - (uint64_t)ARENA));
            if (it == at.begin()) continue;
            --it;
            const Block &b = g.blocks[it->second];
            if (v - (uint64_t)ARENA > b.off + b.size) continue;
            if (held.insert(it->second).second) todo.push_back(it->second);
        }
    };
    scan(__start_sutdata, len_data());
    scan(__start_sutbss, len_bss());
    if (tls_size) {
        scan(tls_at, tls_size);
        for (int i = 0; i < MAXF; i++) if (g.f[i].st != FREE) scan(tls_img[i], tls_size);
    }
    while (!todo.empty()) {
        Block b = g.blocks[todo.back()];
        todo.pop_back();
        scan(ARENA + b.off, b.size);
    }
    std::vector<size_t> r;
    for (size_t i : live) if (!held.count(i)) r.push_back(i);
    return r;
}
size_t live_sut_allocs() { return leaked().size(); }
std::string describe_live() {
    std::string s;
    for (size_t i : leaked()) s += " [" + std::to_string(g.blocks[i].size) + " bytes]";
    return s;
}
void set_alloc_fail(int at) { g.alloc_at = at; g.allocs = 0; g.alloc_fired = false; }
int allocs_seen() { return g.allocs; }
bool alloc_fired() { return g.alloc_fired; }
void set_granted(int m) { g.cfg.reduce_team = m; }
void set_nthreads(int n) { g.cfg.nthreads = n; }
void set_lag(int l) { g.cfg.lag = l; }
FaultCounts &faults() { return g.fc; }
void add_output(const void *p, size_t n) {
    const unsigned char *c = (const unsigned char *)p;
    for (size_t i = 0; i < n; i++) g.outhash = (g.outhash ^ c[i]) * 0x100000001B3ull;
    hash_in(g.outhash);
}
Sut::Sut() { if (g.active) g.cur->sut++; }
Sut::~Sut() { if (g.active) g.cur->sut--; }

// ---------------------------------------------------------------- fibers
static void fiber_done();
extern "C" void fiber_main(Fiber *f) {
    if (f->app) (*f->app)();
    else f->fn(f->fnarg);
    fiber_done();
}
static Fiber *new_fiber() {
    for (int i = 0; i < MAXF; i++)
        if (g.f[i].st == FREE) {
            Fiber *f = &g.f[i];
            char *top = STACK_BASE + (size_t)(i + 1) * STACK - 64;
            MVec<WS> keep = f->solo.ws;
            keep.clear();
            __real_memset((void *)f, 0, sizeof *f);
            f->id = i;
            rounds_clear(f);
            ep.f[i].first = ep.f[i].prev = ep.f[i].s = 0; ep.f[i].row = -1;
            f->solo.ws = keep;
            f->solo.n = 1;
            f->solo.mem[0] = f;
            f->team = &f->solo;
            f->oseq = -1;
            f->st = READY;
            f->prio = g.sch->replay ? 0 : g.rng.unit();
            // initial frame: mxcsr/fcw, r15 r14 r13 r12 rbx rbp, return address
            poison(top - (i ? 2048 : 16384), i ? 2048 : 16384);   // what an automatic variable holds before it is set
            uint64_t *s = (uint64_t *)top;
            *--s = 0;  // alignment
            *--s = (uint64_t)&fiber_entry_thunk;
            *--s = 0;              // rbp
            *--s = 0;              // rbx
            *--s = (uint64_t)f;    // r12
            *--s = 0; *--s = 0; *--s = 0;
            *--s = 0;
            uint32_t mx; uint16_t cw;
            asm volatile("stmxcsr %0" : "=m"(mx));
            asm volatile("fnstcw %0" : "=m"(cw));
            ((uint32_t *)s)[0] = mx;
            ((uint32_t *)s)[1] = cw;
            f->sp = s;
            if (tls_size) tls_fresh(tls_img[i]);
            return f;
        }
    g.trivial = true;   // no room for another simulated thread: the run is given up and decides nothing
    to_host();
    __builtin_unreachable();
}
// destructors of thread-local objects, run when their simulated thread ends
struct TDtor { void (*d)(void *); void *o; int fiber; };
static MVec<TDtor> tdtors;
static void thread_dtors(Fiber *c) {
    for (bool more = true; more;) {
        more = false;
        for (size_t i = tdtors.n; i-- > 0;)
            if (tdtors[i].fiber == c->id) {
                TDtor t = tdtors[i];
                tdtors[i].fiber = -1;
                c->sut++;
                t.d(t.o);
                c->sut--;
                more = true;
                break;
            }
    }
}
static void fiber_done() {
    Fiber *c = g.cur;
    if (c->id == 0) { g.ended = true; to_host(); }
    if (tdtors.n) thread_dtors(c);
    if (!c->app) { c->region_done = true; c->team->active--; }
    c->st = DONE;
    schedule_forced();
    __builtin_unreachable();
}
void spawn(const std::function<void()> &f) {
    auto *fn = new std::function<void()>(f);
    Fiber *t = new_fiber();
    t->app = fn;
    t->tid = 0;
}
static bool cond_apps_done(Fiber *) {
    for (int i = 1; i < MAXF; i++)
        if (g.f[i].app && g.f[i].st != DONE && g.f[i].st != FREE) return false;
    return true;
}
void join_all() {
    block(cond_apps_done);
    for (int i = 1; i < MAXF; i++)
        if (g.f[i].app && g.f[i].st == DONE) { delete g.f[i].app; g.f[i].app = nullptr; g.f[i].st = FREE; }
}

// ---------------------------------------------------------------- teams
static bool cond_team_done(Fiber *f) { return f->team->active <= 1; }
static bool cond_barrier(Fiber *f) { return f->team->gen != f->cgen; }

static void parallel(void (*fn)(void *), void *data, unsigned nt) {
    Fiber *c = g.cur;
    rt_point(1);
    int want = nt ? (int)nt : g.cfg.nthreads;
    if (c->region > (g.cfg.nested ? 1 : 0)) want = 1;
    if (want > 24) want = 24;
    if (want < 1) want = 1;
    int n = want;
    if (want > 1) {
        if (g.cfg.reduce_team == 2) n = 1;
        else if (g.cfg.reduce_team == 1) n = want - (int)choose(want);
        if (n != want) g.fc.team_reduced++;
    }
    if (n > g.max_team) g.max_team = n;
    Team t;
    __real_memset((void *)&t, 0, sizeof t);
    t.n = n;
    t.active = n;
    t.parent = c->team;
    Team *old = c->team;
    int otid = c->tid, ows = c->ws, olag = c->lagidx;
    bool odone = c->region_done, oin = c->inloop;
    c->team = &t;
    c->tid = 0; c->ws = 0; c->lagidx = 0; c->region_done = false; c->inloop = false;
    rounds_clear(c);
    c->region++;
    c->anc[c->region < 7 ? c->region : 7] = 0;
    t.mem[0] = c;
    Fiber *w[MAXF];
    for (int i = 1; i < n; i++) {
        Fiber *f = w[i] = new_fiber();
        f->team = &t;
        f->tid = i;
        f->fn = fn;
        f->fnarg = data;
        f->sut = c->sut;
        f->region = c->region;
        for (int l = 0; l < 8; l++) f->anc[l] = c->anc[l];
        f->anc[c->region < 7 ? c->region : 7] = i;
        t.mem[i] = f;
        if (!g.sch->replay && g.late_p > 0 && g.rng.chance(g.late_p)) {
            f->until = g.vtime + (1ull << g.rng.range(3, 14));
            g.fc.late_start++;
        }
    }
    if (n > 1 && !g.sch->replay) {
        c->prio = g.rng.unit();
        g.victim = (int)g.rng.below(n);
        g.victim_from = g.steps + g.rng.below(200);
        set_gap();
        if (g.policy != SERIAL || g.rng.chance(0.5)) g.gap = 1;
    }
    if (n > 1) step_point(0x1000000ull + 14, false);
    fn(data);
    c->region_done = true;
    if (n > 1) block(cond_team_done);
    for (int i = 1; i < n; i++) {
        if (w[i]->st != DONE) failf("harness-team", "team member not finished");
        w[i]->st = FREE;
    }
    __real_free(t.ws.d);
    c->team = old;
    c->tid = otid; c->ws = ows; c->lagidx = olag; c->region_done = odone; c->inloop = oin;
    c->region--;
    rt_point(2);
}
static void barrier() {
    Fiber *c = g.cur;
    rt_point(3);
    Team *t = c->team;
    if (t->n == 1) return;
    if (++t->arrived == t->n) {
        t->arrived = 0;
        t->gen++;
        return;
    }
    c->cgen = t->gen;
    c->at_barrier = true;
    block(cond_barrier);
    c->at_barrier = false;
}
static bool cond_lag(Fiber *f) { return lag_ok(f); }
static void enter_share() {
    Fiber *c = g.cur;
    if (c->team->n > 1 && !lag_ok(c)) {
        g.fc.lag_hold++;
        block(cond_lag, true);
    }
    c->lagidx++;
    rounds_clear(c);
}
static WS *ws_get() {  // next work-share of the current thread
    Fiber *c = g.cur;
    enter_share();
    Team *t = c->team;
    while ((int)t->ws.n <= c->ws) {
        WS w;
        __real_memset(&w, 0, sizeof w);
        t->ws.push(w);
    }
    return &t->ws[c->ws++];
}
static WS *ws_cur() { return &g.cur->team->ws[g.cur->ws - 1]; }
static bool loop_take(long *is, long *ie) {
    rt_point(4);
    WS *w = ws_cur();
    long rem = w->incr > 0 ? (w->end - w->next + w->incr - 1) / w->incr : (w->next - w->end - w->incr - 1) / -w->incr;
    if (rem <= 0) return false;
    long ch = w->chunk;
    if (w->kind == 1) {  // guided
        long q = (rem + g.cur->team->n - 1) / g.cur->team->n;
        if (q > ch) ch = q;
    }
    if (w->kind == 2) {  // static: contiguous or cyclic
        Fiber *c = g.cur;
        int n = c->team->n;
        long total = rem;
        if (ch <= 0) {
            if (c->static_round > 0) return false;
            long q = total / n, r = total % n;
            long b = c->tid * q + (c->tid < r ? c->tid : r), e = b + q + (c->tid < r ? 1 : 0);
            c->static_round++;
            if (b >= e) return false;
            *is = w->next + b * w->incr; *ie = w->next + e * w->incr;
            return true;
        }
        long b = (c->static_round * n + c->tid) * ch;
        if (b >= total) return false;
        long e = b + ch < total ? b + ch : total;
        c->static_round++;
        *is = w->next + b * w->incr; *ie = w->next + e * w->incr;
        return true;
    }
    if (ch < 1) ch = 1;
    if (ch > rem) ch = rem;
    *is = w->next;
    w->next += ch * w->incr;
    *ie = w->next;
    if ((w->incr > 0 && *ie > w->end) || (w->incr < 0 && *ie < w->end)) *ie = w->end;
    return true;
}
// ordered loops: the chunks are numbered as they are handed out, which is the order of the iterations
static bool cond_turn(Fiber *f) { return f->team->ws[f->ws - 1].turn >= f->oseq; }
static void ordered_enter() {
    rt_point(11);
    if (g.active && g.cur->oseq >= 0) block(cond_turn);
}
static bool ordered_take(long *is, long *ie) {
    Fiber *c = g.cur;
    if (c->oseq >= 0) {
        block(cond_turn);
        ws_cur()->turn++;
    }
    c->oseq = -1;
    if (!loop_take(is, ie)) return false;
    c->oseq = ws_cur()->taken++;
    return true;
}
static bool loop_start(int kind, long s, long e, long incr, long chunk, long *is, long *ie) {
    rt_point(5);
    WS *w = ws_get();
    if (!w->init) {
        w->init = true;
        w->kind = kind; w->next = s; w->end = e; w->incr = incr; w->chunk = chunk;
    }
    g.cur->static_round = 0;
    g.cur->inloop = true;
    return loop_take(is, ie);
}

// ---------------------------------------------------------------- locks
static bool cond_lock(Fiber *f) {
    for (size_t i = 0; i < g.locks.n; i++)
        if (g.locks[i].key == f->carg) return g.locks[i].owner == nullptr;
    return true;
}
static Lock *lock_get(void *k) {
    for (size_t i = 0; i < g.locks.n; i++)
        if (g.locks[i].key == k) return &g.locks[i];
    Lock l = {k, nullptr, 0};
    g.locks.push(l);
    return &g.locks[g.locks.n - 1];
}
static void lock(void *k, bool nest) {
    rt_point(6);
    Lock *l = lock_get(k);
    if (nest && l->owner == g.cur) { l->depth++; return; }
    while (lock_get(k)->owner) {
        if (lock_get(k)->owner == g.cur) failf("deadlock", "a thread waits for a lock it already holds");
        g.cur->carg = k;
        block(cond_lock);
    }
    l = lock_get(k);
    l->owner = g.cur;
    l->depth = 1;
}
static void unlock(void *k) {
    Lock *l = lock_get(k);
    if (l->owner && --l->depth <= 0) l->owner = nullptr;
    rt_point(7);
}

// ---------------------------------------------------------------- simulated files
struct SimFd { bool used; std::string name; };
static std::map<std::string, SimFile> *files;
static std::map<std::string, std::string> *delivered;
static SimFd *fds;
static const int MAXFD = 1024;
static bool eio_seen;
void simfs_put(const std::string &name, const SimFile &f) { (*files)[name] = f; (*delivered)[name].clear(); }
const std::string &simfs_delivered(const std::string &name) { return (*delivered)[name]; }
bool simfs_eio_seen() { return eio_seen; }

NoSut::NoSut() { if (g.active && g.cur) { s = g.cur->sut; g.cur->sut = 0; } }
NoSut::~NoSut() { if (g.active && g.cur) g.cur->sut = s; }

// simulated clocks: every simulated step takes a microsecond; the wall clock may be stepped
static const int64_t EPOCH = 1600000000;
int64_t now_us() { return (int64_t)g.steps + g.slow_us; }
void clock_step(int64_t us) { g.wall_off += us; }
void clock_pass(int64_t us) { g.slow_us += us; }

// ---------------------------------------------------------------- run
static void main_body(void *) { (*g.body)(); }

Outcome run(const RunConfig &cfg, const Schedule &sch, const std::function<void()> &body) {
    g.cfg = cfg;
    g.sch = &sch;
    g.rng = Rng(sch.seed);
    g.steps = g.vtime = 0; g.rounds_seen = false;
    g.wall_off = g.slow_us = 0;
    g.hash = 0xcbf29ce484222325ull;
    g.outhash = 0xcbf29ce484222325ull;
    g.preempts = 0;
    g.sw.clear(); g.dec.clear();
    g.rpos = g.dpos = 0;
    g.violated = g.ended = g.failstop = g.trivial = false;
    g.fc = FaultCounts();
    g.max_team = 1;
    g.top = 0;
    g.blocks.clear();
    spare.clear();
    g.locks.clear();
    g.alloc_at = cfg.alloc_fail_at; g.allocs = 0; g.alloc_fired = false;
    watch_end();
    eio_seen = false;
    files->clear(); delivered->clear();
    for (int i = 0; i < MAXF; i++) { g.f[i].st = FREE; g.f[i].app = nullptr; }
    // draw the policy
    g.wstall_p = g.stall_p = g.late_p = 0;
    g.stall_len = 1;
    g.p = 0.1; g.quantum = 1; g.npct = 0; g.victim = 0; g.victim_from = 0;
    g.policy = RANDOM;
    if (!sch.replay) {
        int pol = (int)g.rng.below(NPOLICY);
        if (sch.policy >= 0) pol = sch.policy;
        g.policy = pol;
        static const double ps[] = {0.5, 0.25, 0.1, 0.03, 0.01, 0.003};
        g.p = ps[g.rng.below(6)];
        g.quantum = g.rng.range(1, 6);
        if (pol == WSTALL) g.wstall_p = ps[2 + g.rng.below(4)];
        if (pol == STRAGGLER) g.p = 0.3;
        if (g.rng.chance(0.3)) { g.stall_p = g.rng.chance(0.5) ? 0.005 : 0.0005; g.stall_len = 1ull << g.rng.range(4, 13); }
        if (pol == SERIAL && g.rng.chance(0.7)) g.stall_p = 0;
        if (g.rng.chance(0.3)) g.late_p = 0.5;
        if (pol == PCT) {
            g.npct = g.rng.range(1, 8);
            uint64_t horizon = 1ull << g.rng.range(6, 14);
            for (int i = 0; i < g.npct; i++) g.pct_points[i] = 1 + g.rng.below(horizon);
        }
    }
    uint64_t *e = eh_globals();
    g.host_eh[0] = e[0]; g.host_eh[1] = e[1];
    g.body = &body;
    statics_reset();
    tdtors.clear();
    g.active = true;
    Fiber *f = new_fiber();
    f->fn = main_body;
    g.cur = f;
    if (tls_size) { __real_memcpy(tls_host, tls_at, tls_size); __real_memcpy(tls_at, tls_img[f->id], tls_size); }
    set_gap();
    e[0] = e[1] = 0;
    fiber_switch(&g.host_sp, f->sp);
    // back on the host stack
    g.active = false;
    if (tls_size) __real_memcpy(tls_at, tls_host, tls_size);
    e = eh_globals();
    e[0] = g.host_eh[0]; e[1] = g.host_eh[1];
    for (int i = 0; i < MAXFD; i++)
        if (fds[i].used) { fds[i].used = false; if (!g.ended) ::close(i); }
    Outcome o;
    o.violation = g.violated;
    if (g.violated) { o.cls = g.cls; o.msg = g.msg; }
    else if (g.failstop) o.cls = "failstop";
    o.hash = g.hash;
    o.out_hash = g.outhash;
    o.steps = g.steps;
    o.vtime = g.vtime;
    o.nswitch = g.sw.n;
    o.preempts = g.preempts;
    o.max_team = g.max_team;
    o.trivial = g.trivial;
    o.policy = g.policy;
    o.faults = g.fc;
    o.switches.assign(g.sw.d, g.sw.d + g.sw.n);
    o.decisions.assign(g.dec.d, g.dec.d + g.dec.n);
    if (g.top) __real_memset(SHADOW, 0, g.top + 256);
    g.blocks.clear();
    spare.clear();
    g.cur = nullptr;
    return o;
}

void init() {
    void *m = mmap(STACK_BASE, (size_t)MAXF * STACK, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
    if (m != STACK_BASE) { perror("mmap stacks"); exit(3); }
    for (int i = 0; i < MAXF; i++) mprotect(STACK_BASE + (size_t)i * STACK + 4096, STACK - 4096, PROT_READ | PROT_WRITE);
    m = mmap(ARENA, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
    if (m != ARENA) { perror("mmap arena"); exit(3); }
    m = mmap(SHADOW, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
    if (m != SHADOW) { perror("mmap shadow"); exit(3); }
    static char alt[65536] __attribute__((aligned(64)));
    stack_t ss;
    memset(&ss, 0, sizeof ss);
    ss.ss_sp = alt;
    ss.ss_size = sizeof alt;
    sigaltstack(&ss, nullptr);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = sig_handler;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGVTALRM}) sigaction(s, &sa, nullptr);
    statics_init();
    files = new std::map<std::string, SimFile>;
    delivered = new std::map<std::string, std::string>;
    fds = new SimFd[MAXFD]();
}

// for abort()/assert
[[noreturn]] static void aborted(const char *why) {
    if (g.active && g.cur) {
        if (abort_is_failstop) { g.failstop = true; to_host(); }
        failf("abort", "%s", why);
    }
    const char m[] = "simulator: abort outside a run: ";
    (void)!::syscall(SYS_write, 2, m, sizeof m - 1);
    (void)!::syscall(SYS_write, 2, why, strlen(why));
    (void)!::syscall(SYS_write, 2, "\n", 1);
    _exit(3);
}

}  // namespace sim
using namespace sim;

// ================================================================ C interfaces
extern "C" {

void abort() noexcept { aborted("the operation called abort() (uncaught exception or explicit abort)"); }
void __assert_fail(const char *e, const char *, unsigned, const char *) noexcept {
    char b[300];
    snprintf(b, sizeof b, "an internal assertion of the code failed: %s", e);
    aborted(b);
}

int __cxa_thread_atexit(void (*d)(void *), void *o, void *) noexcept {
    if (g.active && g.cur) tdtors.push(TDtor{d, o, g.cur->id});
    return 0;
}
// ---- initialisation of function-local statics: another simulated thread waits for the one initialising
static bool cond_guard(Fiber *f) { return !((char *)f->carg)[1]; }
int __cxa_guard_acquire(uint64_t *gu) {
    char *b = (char *)gu;
    while (true) {
        if (b[0]) return 0;
        if (!b[1]) { b[1] = 1; return 1; }
        if (!g.active || !g.cur) _exit(3);
        g.cur->carg = gu;
        block(cond_guard);
    }
}
void __cxa_guard_release(uint64_t *gu) { ((char *)gu)[0] = 1; ((char *)gu)[1] = 0; }
void __cxa_guard_abort(uint64_t *gu) { ((char *)gu)[1] = 0; }

// ---- allocation
void *__wrap_malloc(size_t n) { return sut_alloc() ? sut_malloc(n, 16) : __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) {
    if (!sut_alloc()) return __real_calloc(a, b);
    void *p = sut_malloc(a * b, 16);
    if (p) __real_memset(p, 0, a * b);
    return p;
}
void __wrap_free(void *p) {
    if (!p) return;
    if (in_arena(p)) { rt_point(91); arena_put(p); }
    else __real_free(p);
}
void *__wrap_realloc(void *p, size_t n) {
    if (!in_arena(p) && !(sut_alloc() && !p)) return __real_realloc(p, n);
    void *q = sut_malloc(n, 16);
    if (q && p) {
        uint64_t idx;
        __real_memcpy(&idx, (char *)p - 8, 8);
        size_t m = g.blocks[idx].size < n ? g.blocks[idx].size : n;
        __real_memcpy(q, p, m);
        arena_put(p);
    }
    return q;
}
int __wrap_posix_memalign(void **out, size_t al, size_t n) {
    if (!sut_alloc()) return __real_posix_memalign(out, al, n);
    void *p = sut_malloc(n, al);
    if (!p) return ENOMEM;
    *out = p;
    return 0;
}
void *__wrap_aligned_alloc(size_t al, size_t n) { return sut_alloc() ? sut_malloc(n, al) : __real_aligned_alloc(al, n); }

// ---- block operations of the code under test
void *__wrap_memcpy(void *d, const void *s, size_t n) {
    if (sut_alloc() && n) {
        check_mem(s, n, false);
        check_mem(d, n, true);
        size_t k = n <= 256 ? n : 256;  // word-wise with preemption points
        size_t i = 0;
        for (; i + 8 <= k; i += 8) {
            step_point(addr_code((char *)s + i) * 4 + 1, false);
            watch_read((const char *)s + i, 8);
            uint64_t v;
            __real_memcpy(&v, (const char *)s + i, 8);
            step_point(addr_code((char *)d + i) * 4 + 3, true);
            __real_memcpy((char *)d + i, &v, 8);
            watch_write((char *)d + i, 8);
        }
        if (i < n && wt.n) { if (wt.pend) watch_flush(); watch_write((char *)d + i, n - i); }
        if (i < n) __real_memcpy((char *)d + i, (const char *)s + i, n - i);
        return d;
    }
    return __real_memcpy(d, s, n);
}
void *__wrap_memmove(void *d, const void *s, size_t n) {
    if (sut_alloc() && n) {
        acc(s, n, false);
        acc(d, n, true);
    }
    return __real_memmove(d, s, n);
}
void *__wrap_memset(void *d, int c, size_t n) {
    if (sut_alloc() && n) acc(d, n, true);
    return __real_memset(d, c, n);
}

// ---- tsan callbacks
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n)                                                             \
    void __tsan_read##n(void *p) { acc(p, n, false); }                    \
    void __tsan_write##n(void *p) { acc(p, n, true); }                    \
    void __tsan_volatile_read##n(void *p) { acc(p, n, false); }           \
    void __tsan_volatile_write##n(void *p) { acc(p, n, true); }           \
    void __tsan_unaligned_read##n(void *p) { acc(p, n, false); }          \
    void __tsan_unaligned_write##n(void *p) { acc(p, n, true); }          \
    void __tsan_unaligned_volatile_read##n(void *p) { acc(p, n, false); } \
    void __tsan_unaligned_volatile_write##n(void *p) { acc(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { acc(p, n, false); }
void __tsan_write_range(void *p, unsigned long n) { acc(p, n, true); }
void __tsan_vptr_update(void **p, void *) { acc(p, 8, true); }
void __tsan_vptr_read(void **p) { acc(p, 8, false); }

#define ATOMICS(B, T)                                                                                        \
    T __tsan_atomic##B##_load(const volatile T *a, int) { acc((void *)a, B / 8, false); return *a; }         \
    void __tsan_atomic##B##_store(volatile T *a, T v, int) { acc((void *)a, B / 8, true); *a = v; }          \
    T __tsan_atomic##B##_exchange(volatile T *a, T v, int) { acc((void *)a, B / 8, true); T o = *a; *a = v; return o; } \
    T __tsan_atomic##B##_fetch_add(volatile T *a, T v, int) { acc((void *)a, B / 8, true); T o = *a; *a = o + v; return o; } \
    T __tsan_atomic##B##_fetch_sub(volatile T *a, T v, int) { acc((void *)a, B / 8, true); T o = *a; *a = o - v; return o; } \
    T __tsan_atomic##B##_fetch_and(volatile T *a, T v, int) { acc((void *)a, B / 8, true); T o = *a; *a = o & v; return o; } \
    T __tsan_atomic##B##_fetch_or(volatile T *a, T v, int) { acc((void *)a, B / 8, true); T o = *a; *a = o | v; return o; } \
    T __tsan_atomic##B##_fetch_xor(volatile T *a, T v, int) { acc((void *)a, B / 8, true); T o = *a; *a = o ^ v; return o; } \
    T __tsan_atomic##B##_fetch_nand(volatile T *a, T v, int) { acc((void *)a, B / 8, true); T o = *a; *a = ~(o & v); return o; } \
    int __tsan_atomic##B##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) {                     \
        acc((void *)a, B / 8, true);                                                                         \
        T o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; }                                     \
    int __tsan_atomic##B##_compare_exchange_weak(volatile T *a, T *c, T v, int m, int n) {                   \
        return __tsan_atomic##B##_compare_exchange_strong(a, c, v, m, n); }                                  \
    T __tsan_atomic##B##_compare_exchange_val(volatile T *a, T c, T v, int, int) {                           \
        acc((void *)a, B / 8, true);                                                                         \
        T o = *a; if (o == c) *a = v; return o; }
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)
void __tsan_atomic_thread_fence(int) { rt_point(8); }
void __tsan_atomic_signal_fence(int) {}

// ---- OpenMP runtime
void GOMP_parallel(void (*fn)(void *), void *data, unsigned nt, unsigned) {
    if (!g.active) { fn(data); return; }
    parallel(fn, data, nt);
}
unsigned GOMP_parallel_reductions(void (*fn)(void *), void *data, unsigned nt, unsigned f) {
    GOMP_parallel(fn, data, nt, f);
    return 1;
}
void GOMP_barrier() { if (g.active) barrier(); }
bool GOMP_barrier_cancel() { if (g.active) barrier(); return false; }
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }
#define LOOPS(name, kind)                                                                                         \
    bool GOMP_loop_##name##_start(long s, long e, long i, long c, long *is, long *ie) {                           \
        return loop_start(kind, s, e, i, c, is, ie); }                                                            \
    bool GOMP_loop_##name##_next(long *is, long *ie) { return loop_take(is, ie); }                                \
    bool GOMP_loop_ull_##name##_start(bool, unsigned long long s, unsigned long long e, unsigned long long i,     \
                                      unsigned long long c, unsigned long long *is, unsigned long long *ie) {     \
        return loop_start(kind, (long)s, (long)e, (long)i, (long)c, (long *)is, (long *)ie); }                    \
    bool GOMP_loop_ull_##name##_next(unsigned long long *is, unsigned long long *ie) {                            \
        return loop_take((long *)is, (long *)ie); }
LOOPS(dynamic, 0)
LOOPS(nonmonotonic_dynamic, 0)
LOOPS(guided, 1)
LOOPS(nonmonotonic_guided, 1)
LOOPS(static, 2)
static int rt_kind() { return g.active && (g.cfg.nthreads & 1) ? 2 : 0; }
bool GOMP_loop_runtime_start(long s, long e, long i, long *is, long *ie) { return loop_start(rt_kind(), s, e, i, 0, is, ie); }
bool GOMP_loop_runtime_next(long *is, long *ie) { return loop_take(is, ie); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long *is, long *ie) { return loop_start(rt_kind(), s, e, i, 0, is, ie); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long *is, long *ie) { return loop_take(is, ie); }
bool GOMP_loop_nonmonotonic_runtime_start(long s, long e, long i, long *is, long *ie) { return loop_start(rt_kind(), s, e, i, 0, is, ie); }
bool GOMP_loop_nonmonotonic_runtime_next(long *is, long *ie) { return loop_take(is, ie); }
bool GOMP_loop_ull_runtime_start(bool, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long *is, unsigned long long *ie) { return loop_start(rt_kind(), (long)s, (long)e, (long)i, 0, (long *)is, (long *)ie); }
bool GOMP_loop_ull_runtime_next(unsigned long long *is, unsigned long long *ie) { return loop_take((long *)is, (long *)ie); }
bool GOMP_loop_ull_maybe_nonmonotonic_runtime_start(bool u, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long *is, unsigned long long *ie) { return GOMP_loop_ull_runtime_start(u, s, e, i, is, ie); }
bool GOMP_loop_ull_maybe_nonmonotonic_runtime_next(unsigned long long *is, unsigned long long *ie) { return loop_take((long *)is, (long *)ie); }
void GOMP_loop_end() { if (g.active) g.cur->inloop = false; barrier(); }
bool GOMP_loop_end_cancel() { GOMP_loop_end(); return false; }
void GOMP_loop_end_nowait() { if (g.active) g.cur->inloop = false; rt_point(9); }

#define ORDERED(name)                                                                                             \
    bool GOMP_loop_ordered_##name##_start(long s, long e, long i, long c, long *is, long *ie) {                   \
        rt_point(5);                                                                                              \
        WS *w = ws_get();                                                                                         \
        long tot = i > 0 ? (e - s + i - 1) / i : (s - e - i - 1) / -i;                                            \
        if (!w->init) { w->init = true; w->next = s; w->end = e; w->incr = i;                                     \
            w->chunk = c > 0 ? c : (tot + g.cur->team->n - 1) / g.cur->team->n; }                                 \
        g.cur->oseq = -1;                                                                                         \
        return ordered_take(is, ie); }                                                                            \
    bool GOMP_loop_ordered_##name##_next(long *is, long *ie) { return ordered_take(is, ie); }                     \
    bool GOMP_loop_ull_ordered_##name##_start(bool, unsigned long long s, unsigned long long e, unsigned long long i, \
                                              unsigned long long c, unsigned long long *is, unsigned long long *ie) { \
        return GOMP_loop_ordered_##name##_start((long)s, (long)e, (long)i, (long)c, (long *)is, (long *)ie); }    \
    bool GOMP_loop_ull_ordered_##name##_next(unsigned long long *is, unsigned long long *ie) {                    \
        return ordered_take((long *)is, (long *)ie); }
ORDERED(static)
ORDERED(dynamic)
ORDERED(guided)

struct ParLoop { void (*fn)(void *); void *data; long s, e, i, c; int kind; };
static void par_loop_body(void *v) {
    // combined construct: the outlined function calls GOMP_loop_*_next itself after an implicit start
    ParLoop *p = (ParLoop *)v;
    WS *w = ws_get();
    if (!w->init) { w->init = true; w->kind = p->kind; w->next = p->s; w->end = p->e; w->incr = p->i; w->chunk = p->c; }
    g.cur->static_round = 0;
    g.cur->inloop = true;
    p->fn(p->data);
}
#define PARLOOP(name, kind)                                                                                         \
    void GOMP_parallel_loop_##name(void (*fn)(void *), void *data, unsigned nt, long s, long e, long i, long c, unsigned) { \
        ParLoop p = {fn, data, s, e, i, c, kind};                                                                   \
        parallel(par_loop_body, &p, nt); }
PARLOOP(dynamic, 0)
PARLOOP(nonmonotonic_dynamic, 0)
PARLOOP(guided, 1)
PARLOOP(nonmonotonic_guided, 1)
PARLOOP(static, 2)
void GOMP_parallel_loop_runtime(void (*fn)(void *), void *data, unsigned nt, long s, long e, long i, unsigned) {
    ParLoop p = {fn, data, s, e, i, 0, rt_kind()};
    parallel(par_loop_body, &p, nt);
}
void GOMP_parallel_loop_nonmonotonic_runtime(void (*fn)(void *), void *data, unsigned nt, long s, long e, long i, unsigned f) { GOMP_parallel_loop_runtime(fn, data, nt, s, e, i, f); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void *), void *data, unsigned nt, long s, long e, long i, unsigned f) { GOMP_parallel_loop_runtime(fn, data, nt, s, e, i, f); }

unsigned GOMP_sections_next() {
    long a, b;
    return loop_take(&a, &b) ? (unsigned)a : 0;
}
unsigned GOMP_sections_start(unsigned n) {
    long a, b;
    return loop_start(0, 1, (long)n + 1, 1, 1, &a, &b) ? (unsigned)a : 0;
}
void GOMP_sections_end() { barrier(); }
void GOMP_sections_end_nowait() { rt_point(9); }
bool GOMP_sections_end_cancel() { barrier(); return false; }
void GOMP_parallel_sections(void (*fn)(void *), void *data, unsigned nt, unsigned n, unsigned) {
    ParLoop p = {fn, data, 1, (long)n + 1, 1, 1, 0};
    parallel(par_loop_body, &p, nt);
}
bool GOMP_single_start() {
    rt_point(10);
    WS *w = ws_get();
    if (w->claimed) return false;
    w->claimed = true;
    return true;
}
static bool cond_copied(Fiber *f) { return f->team->ws[f->ws - 1].copied; }
void *GOMP_single_copy_start() {
    rt_point(10);
    WS *w = ws_get();
    if (!w->claimed) { w->claimed = true; return nullptr; }
    block(cond_copied);
    return ws_cur()->copypriv;
}
void GOMP_single_copy_end(void *d) {
    WS *w = ws_cur();
    w->copypriv = d;
    w->copied = true;
    barrier();
}
static char key_atomic, key_critical;
void GOMP_atomic_start() { if (g.active) lock(&key_atomic, false); }
void GOMP_atomic_end() { if (g.active) unlock(&key_atomic); }
void GOMP_critical_start() { if (g.active) lock(&key_critical, false); }
void GOMP_critical_end() { if (g.active) unlock(&key_critical); }
void GOMP_critical_name_start(void **p) { if (g.active) lock(p, false); }
void GOMP_critical_name_end(void **p) { if (g.active) unlock(p); }
void GOMP_ordered_start() { ordered_enter(); }
void GOMP_ordered_end() { rt_point(11); }
void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long sz, long al, bool, unsigned, void **, int, void *) {
    rt_point(12);
    if (cpy) {
        char buf[4096] __attribute__((aligned(64)));
        (void)sz; (void)al;
        cpy(buf, data);
        fn(buf);
    } else {
        char buf[4096] __attribute__((aligned(64)));
        if (sz > 0 && sz < 4096) { __real_memcpy(buf, data, sz); fn(buf); }
        else fn(data);
    }
}
void GOMP_taskloop(void (*fn)(void *), void *data, void (*)(void *, void *), long, long, unsigned, unsigned long, int, long start, long end, long) {
    rt_point(12);
    ((long *)data)[0] = start;
    ((long *)data)[1] = end;
    fn(data);
}
void GOMP_taskloop_ull(void (*fn)(void *), void *data, void (*c)(void *, void *), long a, long b, unsigned f, unsigned long n, int p, unsigned long long s, unsigned long long e, unsigned long long st) {
    GOMP_taskloop(fn, data, c, a, b, f, n, p, (long)s, (long)e, (long)st);
}
void GOMP_taskwait() { rt_point(12); }
void GOMP_taskyield() { rt_point(12); }
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() {}

int omp_get_thread_num() {
    if (!g.active) return 0;
    rt_point(13);
    if (g.cur->team->n > 1 && g.cur->sut) enter_share();   // a static work-share (or explicit partition) starts here
    return g.cur->tid;
}
int omp_get_num_threads() { return g.active ? g.cur->team->n : 1; }
int omp_get_max_threads() { return g.active ? g.cfg.nthreads : 1; }
void omp_set_num_threads(int n) { if (g.active && n > 0) g.cfg.nthreads = n; }
int omp_get_num_procs() { return 8; }
extern int omp_get_active_level();
int omp_in_parallel() { return omp_get_active_level() > 0; }
int omp_get_dynamic() { return g.active && g.cfg.reduce_team; }
void omp_set_dynamic(int) {}
int omp_get_nested() { return g.active && g.cfg.nested; }
void omp_set_nested(int) {}
int omp_get_level() { return g.active ? g.cur->region : 0; }
int omp_get_active_level() {
    int l = 0;
    if (g.active) for (Team *t = g.cur->team; t; t = t->parent) l += t->n > 1;
    return l;
}
int omp_get_thread_limit() { return 24; }
int omp_get_max_active_levels() { return g.active && g.cfg.nested ? 2 : 1; }
void omp_set_max_active_levels(int) {}
int omp_get_team_size(int) { return omp_get_num_threads(); }
int omp_get_ancestor_thread_num(int l) {
    int here = omp_get_level();
    if (l < 0 || l > here) return -1;
    return l == here ? omp_get_thread_num() : l == 0 ? 0 : g.active ? g.cur->anc[l < 7 ? l : 7] : 0;
}
double omp_get_wtime() { return now_us() * 1e-6; }
// the system clocks, as seen by the code under test
int clock_gettime(clockid_t c, struct timespec *ts) noexcept {
    if (!sut_alloc()) return (int)::syscall(SYS_clock_gettime, c, ts);
    int64_t us = now_us() + (c == CLOCK_REALTIME ? g.wall_off : 0);
    ts->tv_sec = us / 1000000 + (c == CLOCK_REALTIME ? EPOCH : 0);
    ts->tv_nsec = us % 1000000 * 1000;
    return 0;
}
int gettimeofday(struct timeval *tv, void *) noexcept {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
clock_t clock() noexcept {
    struct timespec ts;
    clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &ts);
    return (clock_t)(ts.tv_sec * 1000000 + ts.tv_nsec / 1000);
}
time_t time(time_t *t) noexcept {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}
double omp_get_wtick() { return 1e-6; }
void omp_init_lock(void *) {}
void omp_destroy_lock(void *) {}
void omp_set_lock(void *k) { if (g.active) lock(k, false); }
void omp_unset_lock(void *k) { if (g.active) unlock(k); }
int omp_test_lock(void *k) {
    if (!g.active) return 1;
    rt_point(6);
    if (lock_get(k)->owner) return 0;
    lock(k, false);
    return 1;
}
// the mutexes of the language and of the system
int __real_pthread_mutex_lock(void *);
int __real_pthread_mutex_unlock(void *);
int __real_pthread_mutex_trylock(void *);
int __wrap_pthread_mutex_lock(void *k) { if (!g.active) return __real_pthread_mutex_lock(k); lock(k, ((int *)k)[4] == 1); return 0; }
int __wrap_pthread_mutex_unlock(void *k) { if (!g.active) return __real_pthread_mutex_unlock(k); unlock(k); return 0; }
int __wrap_pthread_mutex_trylock(void *k) { if (!g.active) return __real_pthread_mutex_trylock(k); return omp_test_lock(k) ? 0 : EBUSY; }
int __wrap_pthread_rwlock_rdlock(void *k) { if (g.active) lock(k, false); return 0; }
int __wrap_pthread_rwlock_wrlock(void *k) { if (g.active) lock(k, false); return 0; }
int __wrap_pthread_rwlock_unlock(void *k) { if (g.active) unlock(k); return 0; }
int __real_pthread_once(int *, void (*)());
int __wrap_pthread_once(int *c, void (*fn)()) {
    if (!g.active) return __real_pthread_once(c, fn);
    struct Hold { void *k; Hold(void *q) : k(q) { lock(k, false); } ~Hold() { unlock(k); } } h(c);
    if (*c != 2) { fn(); *c = 2; }
    return 0;
}
void omp_init_nest_lock(void *) {}
void omp_destroy_nest_lock(void *) {}
void omp_set_nest_lock(void *k) { if (g.active) lock(k, true); }
void omp_unset_nest_lock(void *k) { if (g.active) unlock(k); }
int omp_test_nest_lock(void *k) {
    if (!g.active) return 1;
    rt_point(6);
    Lock *l = lock_get(k);
    if (l->owner && l->owner != g.cur) return 0;
    lock(k, true);
    return lock_get(k)->depth;
}
// queries with one answer in a single-device program
void omp_set_schedule(int, int) {}
void omp_get_schedule(int *kind, int *chunk) { *kind = rt_kind() ? 2 : 1; *chunk = rt_kind() ? 1 : 0; }
int omp_get_cancellation() { return 0; }
int omp_get_max_task_priority() { return 0; }
int omp_get_num_teams() { return 1; }
int omp_get_team_num() { return 0; }
int omp_get_proc_bind() { return 0; }
int omp_get_num_places() { return 0; }
int omp_get_place_num() { return -1; }
int omp_get_num_devices() { return 0; }
int omp_get_default_device() { return 0; }
int omp_get_initial_device() { return 0; }
int omp_is_initial_device() { return 1; }
int omp_get_supported_active_levels() { return 1 << 20; }
int omp_in_final() { return 0; }

// ---- files
static FILE *sim_open(const char *path) {
    NoSut ns;
    std::string name(path);
    auto it = files->find(name);
    if (it == files->end() || it->second.open_fail) {
        if (it != files->end()) g.fc.open_fail++;
        errno = ENOENT;
        return nullptr;
    }
    int fd = memfd_create("simfs", 0);
    if (fd < 0 || fd >= MAXFD) { perror("memfd"); _exit(3); }
    const std::string &d = it->second.data;
    size_t o = 0;
    while (o < d.size()) {
        ssize_t k = ::syscall(SYS_write, fd, d.data() + o, d.size() - o);
        if (k <= 0) _exit(3);
        o += k;
    }
    lseek(fd, 0, SEEK_SET);
    fds[fd].used = true;
    fds[fd].name = name;
    return fdopen(fd, "r");
}
static FILE *plain_open(const char *p, const char *m) {
    int fl = m[0] == 'r' ? O_RDONLY : m[0] == 'w' ? O_WRONLY | O_CREAT | O_TRUNC : O_WRONLY | O_CREAT | O_APPEND;
    int fd = ::open(p, fl | O_CLOEXEC, 0644);
    if (fd < 0) return nullptr;
    return fdopen(fd, m);
}
FILE *fopen(const char *p, const char *m) {
    if (g.active && !strncmp(p, "/simfs/", 7)) return sim_open(p);
    return plain_open(p, m);
}
FILE *fopen64(const char *p, const char *m) { return fopen(p, m); }

ssize_t read(int fd, void *buf, size_t n) {
    if (fd >= 0 && fd < MAXFD && fds && fds[fd].used && g.active) {
        NoSut ns;
        SimFile &f = (*files)[fds[fd].name];
        if (f.fault_mode && n > 0) {
            // 0 full read; 1 short; 2 EINTR; 3 EIO
            double pf = f.fault_mode == 1 ? 0.5 : f.fault_mode == 2 ? 0.9 : 0.3;
            int64_t k = choose_p(pf, f.fault_mode >= 3 ? 3 : 2);
            if (k == 2) { g.fc.eintr++; errno = EINTR; return -1; }
            if (k == 3) { g.fc.eio++; eio_seen = true; errno = EIO; return -1; }
            if (k == 1) {
                size_t m = 1 + (size_t)choose((int64_t)(n < 64 ? n : 64));
                if (m < n) { n = m; g.fc.short_read++; }
            }
        }
        ssize_t r = ::syscall(SYS_read, fd, buf, n);
        if (r > 0) (*delivered)[fds[fd].name].append((char *)buf, r);
        return r;
    }
    return ::syscall(SYS_read, fd, buf, n);
}
}  // extern "C"

// ---- C++ allocation
static void *cxx_new(size_t n, size_t al) {
    if (sut_alloc()) {
        void *p = sut_malloc(n, al);
        if (!p) throw std::bad_alloc();
        return p;
    }
    void *p = nullptr;
    if (al > 16) { if (__real_posix_memalign(&p, al, n)) throw std::bad_alloc(); }
    else p = __real_malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void *operator new(size_t n) { return cxx_new(n, 16); }
void *operator new[](size_t n) { return cxx_new(n, 16); }
void *operator new(size_t n, std::align_val_t a) { return cxx_new(n, (size_t)a); }
void *operator new[](size_t n, std::align_val_t a) { return cxx_new(n, (size_t)a); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return __wrap_malloc(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return __wrap_malloc(n); }
void operator delete(void *p) noexcept { __wrap_free(p); }
void operator delete[](void *p) noexcept { __wrap_free(p); }
void operator delete(void *p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void *p, size_t) noexcept { __wrap_free(p); }
void operator delete(void *p, std::align_val_t) noexcept { __wrap_free(p); }
void operator delete[](void *p, std::align_val_t) noexcept { __wrap_free(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { __wrap_free(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { __wrap_free(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { __wrap_free(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { __wrap_free(p); }
