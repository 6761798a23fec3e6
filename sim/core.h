// Deterministic simulator core: fibers, seeded scheduler, OpenMP runtime, memory arena, faults.
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <map>
#include <string>
#include <vector>
#include <unordered_set>

namespace sim {

// ---------------------------------------------------------------- PRNG
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next() {  // splitmix64
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int range(int a, int b) { return a + (int)below((uint64_t)(b - a + 1)); }  // inclusive
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    bool chance(double p) { return unit() < p; }
};
uint64_t mix(uint64_t a, uint64_t b);

// ---------------------------------------------------------------- configuration of one run
enum Policy { SERIAL, RANDOM, CHUNK, LOCKSTEP, PCT, WSTALL, STRAGGLER, NPOLICY };
extern const char *policy_names[];

struct Schedule {                 // how nondeterminism is resolved
    bool replay = false;
    uint64_t seed = 1;            // search mode
    int policy = -1;              // search mode: forced policy, -1 = drawn from the seed
    std::vector<std::pair<uint64_t, int>> switches;   // replay mode (step -> fiber)
    std::vector<int64_t> decisions;                   // replay mode (in order of the calls of choose())
};

using Params = std::map<std::string, int64_t>;

struct FaultCounts {
    uint64_t preempt = 0, stall = 0, late_start = 0, wstall = 0, team_reduced = 0, alloc_fail = 0,
             poison = 0, lag_hold = 0, short_read = 0, eintr = 0, eio = 0, truncation = 0, corruption = 0,
             open_fail = 0, straggler = 0, api_fail = 0, clock_step = 0;
    void add(const FaultCounts &o);
};

struct Outcome {
    bool violation = false;
    std::string cls;        // class of the violation (stable, used for minimisation)
    std::string msg;        // human readable
    uint64_t hash = 0;      // event hash of the run
    uint64_t out_hash = 0;  // hash of declared outputs
    uint64_t steps = 0;
    uint64_t vtime = 0;
    uint64_t nswitch = 0;
    uint64_t preempts = 0;
    int max_team = 1;
    int policy = 0;
    bool trivial = false;   // workload says nothing was exercised
    FaultCounts faults;
    std::vector<std::pair<uint64_t, int>> switches;
    std::vector<int64_t> decisions;
};

struct RunConfig {
    int nthreads = 1;           // omp_get_max_threads
    int lag = -1;               // bounded lag in work-shares, -1 = unbounded
    int reduce_team = 0;        // 1: the runtime may grant fewer threads than requested (random); 2: always one thread
    bool nested = false;        // parallel regions inside a parallel region get a team, too
    int alloc_fail_at = -1;     // index (per run) of the failing allocation of code under test
    int poison = 0;             // fill pattern of fresh memory
    uint64_t max_steps = 20000000;
};

// Execute body() on the main fiber of a fresh simulated process.
Outcome run(const RunConfig &cfg, const Schedule &sch, const std::function<void()> &body);

// ---------------------------------------------------------------- services for workloads (inside run)
int64_t choose(int64_t n);                 // recorded nondeterministic choice in [0,n); 0 is the benign one
[[noreturn]] void fail(const std::string &cls, const std::string &msg);  // report a violation and end the run
void report(const std::string &cls, const std::string &msg);             // report, continue
bool failed();
void set_trivial();                        // nothing was exercised in this run
void add_output(const void *p, size_t n);
void spawn(const std::function<void()> &f);  // application thread
void join_all();
void yield_point();
void set_alloc_fail(int at);               // (re-)arm allocation failure counted from now; -1 = off
int  allocs_seen();                        // allocations of code under test since arming
bool alloc_fired();
void set_granted(int mode);                // change reduce_team inside the run
void set_nthreads(int n);
void set_lag(int l);
FaultCounts &faults();
void *arena_alloc(size_t n, size_t align); // exact-size block with red zones (harness data)
void arena_release(void *p);
void recycle();                              // released memory may be handed out again
size_t live_sut_allocs();                  // blocks allocated by code under test and not freed
std::string describe_live();

struct Sut {                               // code under test runs while one of these is alive
    Sut();
    ~Sut();
};
struct NoSut {                             // harness work while code under test is on the stack
    int s = 0;
    NoSut();
    ~NoSut();
};
bool in_run();
void stores(const void *p, size_t n);     // a stub is about to write there: is it memory of a live block?
// A vector whose stores by the code under test are recorded (small vectors only; others are never watched)
void watch(const double *p, int n, bool initial, int bs);          // starts with the present values, or with zeros
bool watched(int i, std::vector<double> &vals, double &lo, double &hi);  // all distinct values entry i held; false: only lo, hi are complete
void watch_end();
int watched_epochs();      // times every entry was stored again from inputs read after the previous such time
int watched_stores(int i);  // stores to an entry, and reads of it, since watch()
int watched_reads(int i);
void watch_input(const double *p, int n);   // counts the reads of a second vector, until watch_end()
int input_reads(int i);
bool sweeps_guessed();     // a statically split loop was met: two of its sweeps may have counted as one for the lag bound
int64_t now_us();                          // simulated time
void clock_step(int64_t us);               // the wall clock is set forwards or backwards
void clock_pass(int64_t us);               // simulated time passes (slow call)

// Simulated files under /simfs/
struct SimFile { std::string data; int fault_mode = 0; bool open_fail = false; };
void simfs_put(const std::string &name, const SimFile &f);
const std::string &simfs_delivered(const std::string &name);  // bytes the code under test really received
bool simfs_eio_seen();
extern volatile bool abort_is_failstop;    // abort() counts as a reported error: the run ends with class "failstop"

// global, across runs
extern int out_fd;                         // real stdout
void init();
}
