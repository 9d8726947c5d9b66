// Public C API of the deterministic simulator runtime (libsimrt.so).
//
// One kernel thread executes every simulated thread; the runtime switches between them
// (register file, stack and FS base, so thread_local storage is per simulated thread) only at
// intercepted operations, and only as `choose()` says.  All functions below are safe to call from
// code compiled with or without instrumentation.
#pragma once
#include <cstddef>
#include <cstdint>

#define SIM_API extern "C" __attribute__((visibility("default")))

enum SimChoice : int {   // kinds of decisions
    CH_SCHED = 0,        // which thread runs next
    CH_NOTIFY = 1,       // which waiter notify_one wakes
    CH_SPURIOUS = 2,     // spurious condition variable wake-up
    CH_SHORT_READ = 3,   // read returns fewer bytes than asked for
    CH_EINTR = 4,
    CH_EIO = 5,
    CH_OPEN_FAIL = 6,
    CH_STAT_FAIL = 7,
    CH_RESIZE = 8,       // file shrinks or grows between two operations
    CH_WRITE_FAIL = 9,   // ENOSPC / EIO on write
    CH_SHORT_WRITE = 10,
    CH_CLOSE_FAIL = 11,
    CH_ALLOC_FAIL = 12,
    CH_THREAD_FAIL = 13, // pthread_create EAGAIN
    CH_EVP_FAIL = 14,
    CH_LATENCY = 15,     // slow disk
    CH_USER_THROW = 16,  // element copy/move/work function throws (harness supplied types)
    CH_JOB_ORDER = 17,   // order in which multi-buffer jobs complete (isa-l stand-in)
    CH_PREEMPT = 18,     // preemption before a plain memory access (keyed by access counter)
    CH_WORKLOAD = 19,    // in-run workload choices
    CH_KINDS = 20
};

enum SimStrategy : int { ST_RANDOM = 0, ST_PCT = 1, ST_STARVE = 2, ST_RR = 3, ST_BURST = 4, ST_DEFAULT = 5 };

struct SimDev { uint64_t seq; uint32_t val; uint32_t kind; };

struct SimCfg {
    uint64_t seed = 1;
    int replay = 0;                  // 1: decisions come from devs, everything else takes the default
    const SimDev* devs = nullptr;    // sorted by (kind==CH_PREEMPT, seq)
    uint32_t ndevs = 0;
    int strategy = ST_RANDOM;
    double p_switch = 0.1;           // ST_RANDOM, ST_STARVE
    int pct_depth = 3;
    uint64_t pct_len = 1000;
    double burst_mean = 20;
    uint64_t starve_mask = 0;        // ST_STARVE: bit per tid
    double access_mean = 0;          // mean plain accesses between preemption points, 0 = off
    int race = 0;                    // happens-before race detection on
    double p[CH_KINDS] = {};         // fault probability per decision of that kind
    uint32_t max_faults = 1000000;   // after this many injected faults no more are injected
    uint64_t step_budget = 400000;   // then strictly fair scheduling
    uint64_t fair_budget = 400000;   // then livelock
    uint64_t cpu_seconds = 20;
    int nprocs = 2;
    int verbose = 0;
};

#define SIM_MAXDEV 200000
struct SimResult {
    volatile uint32_t status;        // 0 did not finish, 1 completed, 2 failure
    char cls[48];
    char msg[12000];
    uint64_t steps, switches, accesses, choices, hash, simtime_ns;
    uint32_t nthreads;
    uint64_t faults[CH_KINDS];
    uint64_t probes[64];
    uint32_t ndev, dev_overflow;
    uint64_t user[16];
    SimDev dev[SIM_MAXDEV];
};

typedef void (*sim_main_fn)(void*);

SIM_API void sim_init();                                   // once per process, before any run
// Runs fn(arg) as thread 0 of a simulation in this (already forked) process; never returns.
SIM_API void sim_run(const SimCfg* cfg, SimResult* res, sim_main_fn fn, void* arg) __attribute__((noreturn));

SIM_API int sim_active();
SIM_API int sim_tid();
SIM_API uint64_t sim_step();
SIM_API uint64_t sim_event();                               // strictly increasing event number
SIM_API uint64_t sim_now();
SIM_API unsigned sim_choose(unsigned n, int kind);          // uniform choice (0 by default on replay)
SIM_API unsigned sim_fault(int kind, unsigned n);           // 0 = no fault, else 1..n
SIM_API void sim_fail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
SIM_API void sim_end();                                     // normal end of the run from thread 0
SIM_API void sim_yield();                                   // scheduling point
SIM_API void sim_wait_steps(uint64_t n);                    // resume once n more steps passed or nothing else can run
SIM_API int  sim_wait_quiescent();                          // resume once every other thread is blocked or gone; returns number blocked
SIM_API int  sim_live_threads();                            // simulated threads that have not ended
SIM_API void sim_probe(int id);
SIM_API void sim_note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
SIM_API void sim_mix(uint64_t v);                           // adds a value to the run hash
SIM_API void sim_arm(int kind, int on);                     // enable/disable a fault kind for the calling thread
SIM_API void sim_arm_all(int kind, int on);                 // default for every thread
SIM_API void sim_big_alloc_watch(size_t min_size);          // track live allocations of at least min_size
SIM_API void sim_big_alloc_stats(uint64_t* live, uint64_t* peak_live, uint64_t* peak_bytes, uint64_t* largest);
SIM_API int64_t sim_evp_live();                             // EVP_MD_CTX objects alive
SIM_API uint64_t sim_user_faults();                         // faults injected so far, all kinds
SIM_API void sim_count_fault();                             // the scenario itself brought about a failure condition
SIM_API void sim_faults_off();                              // no more faults are injected from here on
SIM_API void sim_arm_once(int kind);                        // arm for the calling thread until the next injection
SIM_API void sim_leave();                                   // stop simulating: other threads are abandoned, hooks become no-ops
SIM_API void sim_hist(int op, int64_t a, int64_t b, int64_t c);   // append to the run's history (not a scheduling point)
struct SimEv { uint64_t seq; int tid; int op; int64_t a, b, c; };
SIM_API const SimEv* sim_hist_get(size_t* n);
SIM_API void sim_expect_terminate(const char* cls);         // std::terminate ends the run as completed with user[15]=1
SIM_API void sim_set_user(int i, uint64_t v);

// In-memory file system below "/simfs".
SIM_API int  simfs_create(const char* path, const void* data, size_t size);
SIM_API int  simfs_link(const char* path, const char* target);   // symbolic link
SIM_API int  simfs_mkdir(const char* path);
SIM_API int  simfs_chmod(const char* path, unsigned mode);
SIM_API int  simfs_remove(const char* path);
SIM_API int  simfs_corrupt(const char* path, size_t off, unsigned char x);
SIM_API int  simfs_resize(const char* path, size_t size, uint64_t fill_seed);
SIM_API size_t simfs_size(const char* path);                // (size_t)-1: no such file
SIM_API const void* simfs_data(const char* path);
SIM_API int  simfs_open_count();
SIM_API void simfs_set_unreadable(const char* path, int err);
SIM_API void simfs_set_resize_target(const char* path, long delta, uint64_t fill_seed);
SIM_API void simfs_set_disk_limit(long bytes);              // ENOSPC once this much was written, -1 = unlimited
SIM_API void simfs_set_chunk(size_t max_read);              // every read returns at most this much, 0 = off

// Reference digests, computed by libcrypto's one-shot entry points behind the interposed ones.
SIM_API int  sim_ref_digest(const char* name, const void* data, size_t n, unsigned char* out, unsigned* outlen);
SIM_API void sim_ref_sha1(const void* data, size_t n, unsigned char out[20]);
SIM_API void sim_ref_sha256(const void* data, size_t n, unsigned char out[32]);

// Deterministic PRNG helper usable anywhere (not tied to the run's decisions).
static inline uint64_t sim_splitmix(uint64_t& s)
{
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
