// Deterministic simulator runtime: threads, scheduling, locks, atomics, clocks, allocation,
// happens-before race detection.  Compiled without instrumentation; linked before libstdc++ so that
// its definitions of the pthread, clock, allocation and __tsan entry points are the ones in use.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#include "rt_internal.h"

#include <dlfcn.h>
#include <errno.h>
#include <link.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/auxv.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <linux/futex.h>
#include <cxxabi.h>
#include <exception>
#include <initializer_list>
#include <new>

#define RA __builtin_return_address(0)
#define EXPORT extern "C" __attribute__((visibility("default")))

extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
}

// ---------------------------------------------------------------- globals

SimThread* g_cur = nullptr;
SimThread g_th[MAXT];
int g_nth = 0;
SimCfg g_cfg;
SimResult* g_res = nullptr;
uint64_t g_now = 0, g_step = 0;
int g_race = 0;

static bool g_inited = false;
static int g_use_wrfs = 0;
static uint64_t g_choice_seq = 0, g_event = 0, g_hash = 0, g_block_seq = 0;
static uint64_t g_rng[2];
static uint32_t g_dev_i = 0, g_pdev_i = 0;     // replay cursors
static const SimDev* g_pdevs = nullptr;
static uint32_t g_npdevs = 0, g_nsdevs = 0;
static uint64_t g_countdown = ~0ull, g_acc_reload = 0, g_acc_base = 0;
static uint64_t g_consec = 0;
static uint64_t g_nfaults = 0, g_scen_faults = 0;
static uint32_t g_once_mask = 0;
static bool g_faults_off = false;
static uint32_t g_default_armed = 0;
static uint64_t g_pct_pts[64];
static int g_npct = 0;
static uint64_t g_burst_left = 0;
static uint64_t g_starve = 0;
static int g_ncond = 0;
static const char* g_expect_term = nullptr;

static struct Parked { uint64_t fs; unsigned long self; char* stack; } g_parked[MAXT];
static const size_t STACK_SIZE = 1u << 20;

static char *g_arena = nullptr, *g_arena_end = nullptr;
void* rt_alloc(size_t n)
{
    n = (n + 15) & ~size_t(15);
    if (g_arena + n > g_arena_end) { static const char m[] = "simrt: arena exhausted\n"; (void)!write(2, m, sizeof m); _exit(97); }
    void* p = g_arena;
    g_arena += n;
    return p;
}

static inline uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
static uint64_t rng()
{
    uint64_t s0 = g_rng[0], s1 = g_rng[1], r = s0 + s1;
    s1 ^= s0;
    g_rng[0] = rotl(s0, 24) ^ s1 ^ (s1 << 16);
    g_rng[1] = rotl(s1, 37);
    return r;
}
static inline uint64_t rng_n(uint64_t n) { return n <= 1 ? 0 : (uint64_t)(((unsigned __int128)rng() * n) >> 64); }
static inline double rng_d() { return (double)(rng() >> 11) * (1.0 / 9007199254740992.0); }
static uint64_t rng_geo(double mean)
{
    if (mean <= 1) return 1;
    double u = rng_d();
    double k = 1, q = 1.0 / mean;
    // inverse transform without libm: -ln(1-u) * mean, series by halving
    double x = 1 - u; if (x < 1e-12) x = 1e-12;
    double ln = 0; while (x < 0.5) { x *= 2; ln -= 0.693147180559945; }
    double y = 1 - x, t = y; for (int i = 1; i < 40; ++i) { ln -= t / i; t *= y; }
    k = -ln / q;
    return k < 1 ? 1 : (uint64_t)k;
}

void rt_mix(uint64_t v) { g_hash = (g_hash ^ v) * 0x100000001b3ull; g_hash ^= g_hash >> 29; }

void* rt_real(const char* name)
{
    void* p = dlsym(RTLD_NEXT, name);
    return p;
}

// ---------------------------------------------------------------- foreign code ranges

static struct Range { uintptr_t lo, hi; } g_foreign[64];
static int g_nforeign = 0;
static uintptr_t g_exe_lo = 0, g_exe_hi = 0;
static int phdr_cb(dl_phdr_info* i, size_t, void* data)
{
    int* idx = (int*)data;
    uintptr_t lo = ~0ull, hi = 0;
    for (int k = 0; k < i->dlpi_phnum; ++k)
        if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_X)) {
            uintptr_t a = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, b = a + i->dlpi_phdr[k].p_memsz;
            if (a < lo) lo = a;
            if (b > hi) hi = b;
        }
    if ((*idx)++ == 0) { g_exe_lo = lo; g_exe_hi = hi; return 0; }
    const char* n = i->dlpi_name ? i->dlpi_name : "";
    if (strstr(n, "libstdc++") || strstr(n, "libsimrt") || strstr(n, "libgcc")) return 0;
    if (g_nforeign < 64) { g_foreign[g_nforeign].lo = lo; g_foreign[g_nforeign].hi = hi; ++g_nforeign; }
    return 0;
}
bool rt_foreign(const void* ra)
{
    uintptr_t a = (uintptr_t)ra;
    if (a >= g_exe_lo && a < g_exe_hi) return false;
    for (int i = 0; i < g_nforeign; ++i)
        if (a >= g_foreign[i].lo && a < g_foreign[i].hi) return true;
    return false;
}

// ---------------------------------------------------------------- failure reporting

static int append(char* buf, size_t cap, int n, const char* fmt, ...)
{
    if (n >= (int)cap - 1) return n;
    va_list ap; va_start(ap, fmt);
    int k = vsnprintf(buf + n, cap - n, fmt, ap);
    va_end(ap);
    return n + k > (int)cap - 1 ? (int)cap - 1 : n + k;
}

static const char* op_name(int op)
{
    static const char* N[] = {"start", "end", "lock", "trylock", "unlock", "cond-wait", "notify-one", "notify-all", "rdlock",
        "wrlock", "rwunlock", "atomic", "futex-wait", "futex-wake", "create", "join", "yield", "sleep", "once", "guard",
        "io", "digest", "user", "preempt", "wait-steps", "wait-quiescent"};
    return op >= 0 && op < OP_COUNT ? N[op] : "?";
}

static int dump_threads(char* b, size_t cap, int n)
{
    static const char* SN[] = {"free", "runnable", "blocked", "sleeping", "wait-steps", "wait-quiescent", "ended"};
    for (int i = 0; i < g_nth; ++i) {
        SimThread& t = g_th[i];
        if (t.state == TS_DONE) continue;
        n = append(b, cap, n, "\n  T%d %s", i, SN[t.state]);
        if (t.state == TS_BLOCKED) n = append(b, cap, n, " on %s", op_name(t.block_op));
        n = append(b, cap, n, " at");
        int d = (int)t.depth > 255 ? 255 : (int)t.depth;
        for (int k = d - 1, c = 0; k >= 0 && c < 14; --k, ++c) n = append(b, cap, n, " {0x%lx}", (long)t.stk[k]);
    }
    return n;
}

static void finish(uint32_t status) __attribute__((noreturn));
static void finish(uint32_t status)
{
    if (g_res) {
        g_res->steps = g_step;
        g_res->choices = g_choice_seq;
        g_res->accesses = g_acc_base + (g_acc_reload - g_countdown);
        g_res->hash = g_hash;
        g_res->simtime_ns = g_now;
        g_res->nthreads = g_nth;
        __sync_synchronize();
        g_res->status = status;
    }
    _exit(0);
}

static bool g_failing = false;
static void vfail(const char* cls, const char* fmt, va_list ap)
{
    if (g_failing) _exit(98);
    g_failing = true;
    if (!g_res) { fprintf(stderr, "sim_fail outside a run: %s ", cls); vfprintf(stderr, fmt, ap); fputc('\n', stderr); abort(); }
    snprintf(g_res->cls, sizeof g_res->cls, "%s", cls);
    int n = vsnprintf(g_res->msg, sizeof g_res->msg, fmt, ap);
    if (n > (int)sizeof g_res->msg - 1) n = sizeof g_res->msg - 1;
    SimThread* me = g_cur;
    n = append(g_res->msg, sizeof g_res->msg, n, "\n [step %lu, thread T%d]", (unsigned long)g_step, me ? me->tid : -1);
    n = dump_threads(g_res->msg, sizeof g_res->msg, n);
    finish(2);
}
SIM_API void sim_fail(const char* cls, const char* fmt, ...)
{
    va_list ap; va_start(ap, fmt);
    vfail(cls, fmt, ap);
    va_end(ap);
}

SIM_API void sim_set_user(int i, uint64_t v) { if (g_res) g_res->user[i & 15] = v; }
SIM_API void sim_expect_terminate(const char* cls) { g_expect_term = cls; }

static void end_by_termination(const char* what)
{
    if (g_expect_term && g_nfaults + g_scen_faults > 0) {
        snprintf(g_res->cls, sizeof g_res->cls, "%s", g_expect_term);
        snprintf(g_res->msg, sizeof g_res->msg, "%s", what);
        g_res->user[15] = 1;
        rt_mix(0x7e47);
        finish(1);
    }
}

EXPORT void simrt_contract_violation(const char* kind, const char* expr, const char* file, int line)
{
    if (!g_cur) return;
    char b[512];
    snprintf(b, sizeof b, "%s(%s) failed at %s:%d", kind, expr, file, line);
    end_by_termination(b);
    sim_fail("contract", "%s", b);
}

static void on_terminate()
{
    char b[512] = "std::terminate";
    if (std::exception_ptr p = std::current_exception()) {
        try { std::rethrow_exception(p); }
        catch (const std::exception& e) { snprintf(b, sizeof b, "std::terminate after exception: %s", e.what()); }
        catch (...) { snprintf(b, sizeof b, "std::terminate after unknown exception"); }
    }
    if (!g_cur) { fprintf(stderr, "simrt: %s outside run\n", b); _exit(96); }
    end_by_termination(b);
    sim_fail("terminate", "%s", b);
    _exit(96);
}

static void on_signal(int sig, siginfo_t* si, void* uc)
{
    if (g_failing || !g_res) _exit(95);
    unsigned long pc = (unsigned long)((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP];
    if (sig == SIGPROF || sig == SIGXCPU)
        sim_fail("hang", "no progress within the processor time limit, pc {0x%lx}", pc);
    char b[200];
    snprintf(b, sizeof b, "signal %d (%s) addr %p pc {0x%lx}", sig, strsignal(sig), si->si_addr, pc);
    if (sig == SIGABRT) end_by_termination(b);
    sim_fail("crash", "%s", b);
}

// ---------------------------------------------------------------- decisions

static void record(uint64_t seq, uint32_t val, int kind)
{
    if (g_res->ndev >= SIM_MAXDEV) { g_res->dev_overflow = 1; return; }
    SimDev& d = g_res->dev[g_res->ndev++];
    d.seq = seq; d.val = val; d.kind = kind;
}

static unsigned replay_value(uint64_t seq, int kind, unsigned n)
{
    while (g_dev_i < g_nsdevs && g_cfg.devs[g_dev_i].seq < seq) ++g_dev_i;
    if (g_dev_i < g_nsdevs && g_cfg.devs[g_dev_i].seq == seq) {
        const SimDev& d = g_cfg.devs[g_dev_i++];
        if ((int)d.kind != kind) return 0;
        return d.val % n;
    }
    return 0;
}

static inline bool is_fault(int kind) { return kind >= CH_SPURIOUS && kind <= CH_USER_THROW; }

SIM_API unsigned sim_choose(unsigned n, int kind)
{
    if (!g_cur || n <= 1) return 0;
    uint64_t seq = ++g_choice_seq;
    unsigned v = g_cfg.replay ? replay_value(seq, kind, n) : (unsigned)rng_n(n);
    if (v) record(seq, v, kind);
    rt_mix(0x10000 + v);
    return v;
}

SIM_API unsigned sim_fault(int kind, unsigned n)
{
    if (!g_cur || n == 0) return 0;
    if (g_cfg.p[kind] <= 0 || g_faults_off || g_nfaults >= g_cfg.max_faults) return 0;
    if (!(g_cur->armed & (1u << kind))) return 0;
    uint64_t seq = ++g_choice_seq;
    unsigned v = 0;
    if (g_cfg.replay) v = replay_value(seq, kind, n + 1);
    else if (rng_d() < g_cfg.p[kind]) v = 1 + (unsigned)rng_n(n);
    if (v) {
        record(seq, v, kind);
        if (kind != CH_SPURIOUS && kind != CH_LATENCY && kind != CH_SHORT_READ && kind != CH_EINTR) ++g_nfaults;
        g_res->faults[kind]++;
        if (g_once_mask & (1u << kind)) g_cur->armed &= ~(1u << kind);
    }
    rt_mix(0x20000 + v + ((uint64_t)kind << 32));
    return v;
}

SIM_API uint64_t sim_user_faults() { return g_nfaults; }
SIM_API void sim_count_fault() { ++g_scen_faults; }
SIM_API void sim_faults_off() { g_faults_off = true; }
SIM_API void sim_arm(int kind, int on)
{
    if (!g_cur) return;
    if (on) g_cur->armed |= 1u << kind; else g_cur->armed &= ~(1u << kind);
}
SIM_API void sim_arm_once(int kind) { if (g_cur) { g_cur->armed |= 1u << kind; g_once_mask |= 1u << kind; } }
SIM_API void sim_arm_all(int kind, int on)
{
    if (on) g_default_armed |= 1u << kind; else g_default_armed &= ~(1u << kind);
    for (int i = 0; i < g_nth; ++i) if (on) g_th[i].armed |= 1u << kind; else g_th[i].armed &= ~(1u << kind);
}

// ---------------------------------------------------------------- context switch

extern "C" HIDDEN void simrt_switch(void** save_sp, void* new_sp, uint64_t new_fs, int use_wrfs);
extern "C" HIDDEN void simrt_trampoline();
asm(R"(
.text
.hidden simrt_switch
.globl simrt_switch
.type simrt_switch,@function
simrt_switch:
    .cfi_startproc
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    subq $8, %rsp
    stmxcsr (%rsp)
    fnstcw 4(%rsp)
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    testl %ecx, %ecx
    jz 1f
    wrfsbase %rdx
    jmp 2f
1:  movq %rdx, %rsi
    movl $0x1002, %edi
    movl $158, %eax
    syscall
2:  ldmxcsr (%rsp)
    fldcw 4(%rsp)
    addq $8, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
    .cfi_endproc
.size simrt_switch,.-simrt_switch
.hidden simrt_trampoline
.globl simrt_trampoline
.type simrt_trampoline,@function
simrt_trampoline:
    .cfi_startproc
    .cfi_undefined rip
    xorl %ebp, %ebp
    call simrt_thread_main
    ud2
    .cfi_endproc
.size simrt_trampoline,.-simrt_trampoline
)");

static void switch_to(SimThread* t)
{
    SimThread* me = g_cur;
    if (t == me) return;
    g_res->switches++;
    if (g_cfg.verbose) {
        unsigned long pc = t->depth ? (unsigned long)t->stk[t->depth > 255 ? 255 : t->depth - 1] : 0;
        fprintf(stderr, "step %lu: T%d (%s) -> T%d {0x%lx}\n", (unsigned long)g_step, me->tid, op_name(me->last_op), t->tid, pc);
    }
    g_cur = t;
    simrt_switch(&me->sp, t->sp, t->fs, g_use_wrfs);
}

// ---------------------------------------------------------------- scheduler

static inline bool enabled(const SimThread* t)
{
    switch (t->state) {
    case TS_RUNNABLE: return true;
    case TS_WAITSTEP: return g_step >= t->target_step;
    case TS_SLEEP: return g_now >= t->wake_time;
    case TS_BLOCKED: return t->timed && g_now >= t->wake_time;
    default: return false;
    }
}

// Candidates in canonical order: runnable threads cyclically from the current one, then threads
// that the passage of steps or time would enable.  Returns n, *nrun = number of runnable ones.
static int candidates(SimThread** list, bool cur_last, int* nrun)
{
    int n = 0, start = g_cur->tid;
    for (int k = cur_last ? 1 : 0; k < g_nth + (cur_last ? 1 : 0); ++k) {
        SimThread* t = &g_th[(start + k) % g_nth];
        if (enabled(t)) list[n++] = t;
    }
    *nrun = n;
    int m = n;
    for (int i = 0; i < g_nth; ++i) {
        SimThread* t = &g_th[i];
        if (enabled(t)) continue;
        if (t->state == TS_WAITSTEP || t->state == TS_SLEEP || (t->state == TS_BLOCKED && t->timed)) {
            int j = m++;
            auto key = [](SimThread* x) { return x->state == TS_WAITSTEP ? 0 : x->wake_time + 1; };
            while (j > n && key(list[j - 1]) > key(t)) { list[j] = list[j - 1]; --j; }
            list[j] = t;
        }
    }
    n = m;
    if (n == 0)
        for (int i = 0; i < g_nth; ++i)
            if (g_th[i].state == TS_WAITQ) { list[n++] = &g_th[i]; break; }
    return n;
}

static void deadlock()
{
    sim_fail("deadlock", "no thread can run");
}

static SimThread* pick(bool yield)
{
    SimThread* list[MAXT];
    SimThread* me = g_cur;
    int nrun;
    bool fair = g_step > g_cfg.step_budget;
    bool forced = g_consec >= 3000;
    bool cur_last = fair || forced || yield;
    // cheap path: the strategy keeps running the current thread
    bool cur_ok = me->state == TS_RUNNABLE;
    if (cur_ok && !cur_last) {
        if (g_cfg.replay) {
            while (g_dev_i < g_nsdevs && g_cfg.devs[g_dev_i].seq <= g_choice_seq) ++g_dev_i;
            if (!(g_dev_i < g_nsdevs && g_cfg.devs[g_dev_i].seq == g_choice_seq + 1)) { ++g_choice_seq; return me; }
        }
    }
    int n = candidates(list, cur_last, &nrun);
    if (n == 0) deadlock();
    uint64_t seq = ++g_choice_seq;
    unsigned v = 0;
    if (n > 1) {
        if (g_cfg.replay) v = replay_value(seq, CH_SCHED, n);
        else if (!fair) {
            unsigned lim = nrun > 0 ? (unsigned)nrun : (unsigned)n;
            bool at0 = cur_ok && !cur_last;     // list[0] is the current thread
            switch (g_cfg.strategy) {
            case ST_RANDOM:
                if (!at0 || rng_d() < g_cfg.p_switch) v = (unsigned)rng_n(lim);
                if (rng_d() < 0.002) v = (unsigned)rng_n(n);
                break;
            case ST_PCT: {
                if (yield || forced) me->prio = rng_n(1000);
                for (int i = 0; i < g_npct; ++i) if (g_pct_pts[i] == g_step) me->prio = i;
                uint64_t best = 0;
                for (unsigned i = 0; i < lim; ++i) if (list[i]->prio >= best) { best = list[i]->prio; }
                for (unsigned i = 0; i < lim; ++i) if (list[i]->prio == best) { v = i; break; }
                break;
            }
            case ST_STARVE: {
                unsigned ok[MAXT], k = 0;
                for (unsigned i = 0; i < lim; ++i) if (!(g_starve >> list[i]->tid & 1)) ok[k++] = i;
                if (k == 0 || rng_n(600) == 0) v = (unsigned)rng_n(lim);
                else if (at0 && !(g_starve >> me->tid & 1) && rng_d() >= g_cfg.p_switch) v = 0;
                else v = ok[rng_n(k)];
                break;
            }
            case ST_RR:
                v = at0 ? 1 % lim : 0;
                if (rng_d() < g_cfg.p_switch * 0.1) v = (unsigned)rng_n(lim);
                break;
            case ST_BURST:
                if (!at0 || g_burst_left == 0) { v = (unsigned)rng_n(lim); g_burst_left = rng_geo(g_cfg.burst_mean); }
                else --g_burst_left;
                break;
            default: break;
            }
        }
        if (v) record(seq, v, CH_SCHED);
    }
    return list[v];
}

static void resume_state(SimThread* t)
{
    if (t->state == TS_SLEEP || (t->state == TS_BLOCKED && t->timed)) {
        if (g_now < t->wake_time) g_now = t->wake_time;
        if (t->state == TS_BLOCKED && t->block_op == OP_CWAIT) --g_ncond;
        t->timed_out = true;
        t->state = TS_RUNNABLE;
    } else if (t->state == TS_WAITSTEP || t->state == TS_WAITQ) {
        t->state = TS_RUNNABLE;
    }
}

static void tick(int op)
{
    ++g_step;
    g_now += 100;
    SimThread* me = g_cur;
    me->last_op = op;
    rt_mix(((uint64_t)me->tid << 8) | (uint64_t)op);
    if (__builtin_expect(g_step > g_cfg.step_budget + g_cfg.fair_budget, 0))
        sim_fail("livelock", "no completion within %lu steps, the last %lu of them fairly scheduled",
                 (unsigned long)g_step, (unsigned long)g_cfg.fair_budget);
}

static void dispatch(bool yield)
{
    SimThread* me = g_cur;
    SimThread* t = pick(yield);
    if (t == me) { ++g_consec; resume_state(t); return; }
    g_consec = 0;
    resume_state(t);
    switch_to(t);
}

static void spurious()
{
    if (g_cfg.p[CH_SPURIOUS] <= 0 || g_ncond == 0) return;
    unsigned v = sim_fault(CH_SPURIOUS, (unsigned)g_ncond);
    if (!v) return;
    for (int i = 0; i < g_nth; ++i) {
        SimThread& t = g_th[i];
        if (t.state == TS_BLOCKED && t.block_op == OP_CWAIT && --v == 0) {
            t.state = TS_RUNNABLE; t.timed_out = false; --g_ncond;
            return;
        }
    }
}

void rt_sched_point(int op, const void*, bool yield)
{
    if (!g_cur) return;
    tick(op);
    spurious();
    dispatch(yield);
}

void rt_block(int op, const void* obj, bool timed, uint64_t wake_time)
{
    SimThread* me = g_cur;
    me->state = TS_BLOCKED;
    me->block_op = op;
    me->block_obj = obj;
    me->timed = timed;
    me->wake_time = wake_time;
    me->timed_out = false;
    me->block_seq = ++g_block_seq;
    if (op == OP_CWAIT) ++g_ncond;
    dispatch(false);
}

static void unblock(SimThread* t)
{
    if (t->block_op == OP_CWAIT) --g_ncond;
    t->state = TS_RUNNABLE;
    t->timed = false;
}

int rt_wake_all(int op, const void* obj)
{
    int n = 0;
    for (int i = 0; i < g_nth; ++i) {
        SimThread* t = &g_th[i];
        if (t->state == TS_BLOCKED && t->block_op == op && t->block_obj == obj) { unblock(t); ++n; }
    }
    return n;
}

static int wake_one(int op, const void* obj)
{
    SimThread* w[MAXT];
    int n = 0;
    for (int i = 0; i < g_nth; ++i) {
        SimThread* t = &g_th[i];
        if (t->state == TS_BLOCKED && t->block_op == op && t->block_obj == obj) {
            int j = n++;
            while (j > 0 && w[j - 1]->block_seq > t->block_seq) { w[j] = w[j - 1]; --j; }
            w[j] = t;
        }
    }
    if (!n) return 0;
    unsigned v = n > 1 ? sim_choose(n, CH_NOTIFY) : 0;
    unblock(w[v]);
    return 1;
}

void rt_sleep(uint64_t ns)
{
    SimThread* me = g_cur;
    tick(OP_SLEEP);
    me->state = TS_SLEEP;
    me->wake_time = g_now + ns;
    dispatch(false);
}

SIM_API int sim_active() { return g_cur != nullptr; }
SIM_API int sim_tid() { return g_cur ? g_cur->tid : -1; }
SIM_API uint64_t sim_step() { return g_step; }
SIM_API uint64_t sim_event() { return ++g_event; }
SIM_API uint64_t sim_now() { return g_now; }
SIM_API void sim_yield() { if (g_cur) rt_sched_point(OP_USER, nullptr); }
SIM_API void sim_wait_steps(uint64_t n)
{
    if (!g_cur || n == 0) return;
    tick(OP_WAITSTEP);
    g_cur->state = TS_WAITSTEP;
    g_cur->target_step = g_step + n;
    dispatch(false);
}
static inline void vc_join(VC& a, const VC& b);
SIM_API int sim_wait_quiescent()
{
    if (!g_cur) return 0;
    tick(OP_WAITQ);
    g_cur->state = TS_WAITQ;
    dispatch(false);
    int n = 0;
    for (int i = 0; i < g_nth; ++i) {
        if (g_th[i].state == TS_BLOCKED) ++n;
        // the caller looks on from outside the system: what the others did so far is ordered before it
        if (g_race && &g_th[i] != g_cur && g_th[i].state != TS_FREE) { vc_join(g_cur->vc, g_th[i].state == TS_DONE ? g_th[i].final_vc : g_th[i].vc); g_th[i].vc.c[g_th[i].tid]++; }
    }
    return n;
}
SIM_API int sim_live_threads()
{
    int n = 0;
    for (int i = 0; i < g_nth; ++i) if (g_th[i].state != TS_DONE && g_th[i].state != TS_FREE) ++n;
    return n;
}
SIM_API void sim_probe(int id) { if (g_res) g_res->probes[id & 63]++; }
SIM_API void sim_mix(uint64_t v) { rt_mix(v); }
SIM_API void sim_note(const char* fmt, ...)
{
    if (!g_cfg.verbose) return;
    va_list ap; va_start(ap, fmt);
    fprintf(stderr, "step %lu T%d: ", (unsigned long)g_step, g_cur ? g_cur->tid : -1);
    vfprintf(stderr, fmt, ap);
    fputc('\n', stderr);
    va_end(ap);
}

// ---------------------------------------------------------------- vector clocks and sync objects

static inline void vc_join(VC& a, const VC& b)
{
    for (int i = 0; i < g_nth; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i];
}

static const unsigned SYNC_BUCKETS = 1u << 14;
static Sync** g_sync;      // hashed by cache line
static Sync* g_sync_free = nullptr;
static unsigned g_nsync = 0;
static inline unsigned line_hash(uintptr_t a) { return (unsigned)(((a >> 6) * 0x9e3779b97f4a7c15ull) >> 50); }

Sync* rt_sync(const void* addr)
{
    unsigned h = line_hash((uintptr_t)addr) & (SYNC_BUCKETS - 1);
    for (Sync* s = g_sync[h]; s; s = s->next) if (s->addr == addr) return s;
    Sync* s = g_sync_free;
    if (s) { g_sync_free = s->next; } else s = (Sync*)rt_alloc(sizeof(Sync));
    memset(s, 0, sizeof *s);
    s->addr = addr;
    s->owner = -1;
    s->next = g_sync[h];
    g_sync[h] = s;
    ++g_nsync;
    return s;
}

static void sync_drop_range(uintptr_t lo, uintptr_t hi)
{
    if (!g_nsync) return;
    auto drop = [&](unsigned h) {
        for (Sync** p = &g_sync[h]; *p;) {
            Sync* s = *p;
            uintptr_t a = (uintptr_t)s->addr;
            if (a >= lo && a < hi) { *p = s->next; s->next = g_sync_free; g_sync_free = s; --g_nsync; }
            else p = &s->next;
        }
    };
    uintptr_t nl = ((hi - 1) >> 6) - (lo >> 6) + 1;
    if (nl > 512) return;                 // file data buffers hold no synchronisation objects
    for (uintptr_t l = lo >> 6; l <= (hi - 1) >> 6; ++l) drop(line_hash(l << 6) & (SYNC_BUCKETS - 1));
}

void rt_acquire(Sync* s) { if (g_race) vc_join(g_cur->vc, s->clk); }
void rt_release(Sync* s)
{
    if (!g_race) return;
    vc_join(s->clk, g_cur->vc);
    g_cur->vc.c[g_cur->tid]++;
}

// ---------------------------------------------------------------- race detector

// slot: clk:24 | tid:6 | mask:8 | W | A | F | pc:23
static inline uint64_t mk_slot(uint32_t clk, int tid, unsigned mask, unsigned flags, uintptr_t pc)
{
    uint64_t off = pc >= g_exe_lo && pc < g_exe_hi ? (pc - g_exe_lo) & 0x7fffff : 0x7fffff;
    return ((uint64_t)(clk & 0xffffff) << 40) | ((uint64_t)tid << 34) | ((uint64_t)mask << 26) | ((uint64_t)flags << 23) | off;
}
enum { F_W = 4, F_A = 2, F_F = 1 };
#define SL_CLK(s) ((uint32_t)((s) >> 40))
#define SL_TID(s) ((int)(((s) >> 34) & 63))
#define SL_MASK(s) ((unsigned)(((s) >> 26) & 255))
#define SL_FL(s) ((unsigned)(((s) >> 23) & 7))
#define SL_PC(s) ((s) & 0x7fffff)

static const unsigned PG_BUCKETS = 1u << 14;
struct Page { uintptr_t key; uint64_t* cells; };
static Page* g_pages;
static uintptr_t g_last_key = ~0ull;
static uint64_t* g_last_cells = nullptr;
static char *g_shadow = nullptr, *g_shadow_end = nullptr;

static uint64_t* cells_for(uintptr_t a)
{
    uintptr_t key = a >> 16;
    if (key == g_last_key) return g_last_cells + ((a & 0xffff) >> 3) * 4;
    unsigned h = (unsigned)((key * 0x9e3779b97f4a7c15ull) >> 50) & (PG_BUCKETS - 1);
    while (g_pages[h].cells && g_pages[h].key != key) h = (h + 1) & (PG_BUCKETS - 1);
    if (!g_pages[h].cells) {
        size_t sz = (65536 / 8) * 4 * 8;
        if (g_shadow + sz > g_shadow_end) { (void)!write(2, "simrt: shadow exhausted\n", 24); _exit(97); }
        g_pages[h].key = key;
        g_pages[h].cells = (uint64_t*)g_shadow;
        g_shadow += sz;
    }
    g_last_key = key;
    g_last_cells = g_pages[h].cells;
    return g_last_cells + ((a & 0xffff) >> 3) * 4;
}

static void report_race(uintptr_t addr, uint64_t old, unsigned flags, uintptr_t pc)
{
    g_race = 0;
    if (SL_FL(old) & F_F)
        sim_fail("uaf", "use of freed memory: %s by T%d at {0x%lx}; freed by T%d at {0x%lx}",
                 (flags & F_W) ? "write" : "read", g_cur->tid, (long)pc, SL_TID(old), (long)(SL_PC(old) + g_exe_lo));
    sim_fail("race", "data race: %s%s by T%d at {0x%lx} and earlier %s%s by T%d at {0x%lx} are not ordered",
             (flags & F_A) ? "atomic " : "", (flags & F_W) ? "write" : "read", g_cur->tid, (long)pc,
             (SL_FL(old) & F_A) ? "atomic " : "", (SL_FL(old) & F_W) ? "write" : "read", SL_TID(old),
             (long)(SL_PC(old) + g_exe_lo));
}

static inline void shadow_cell(uint64_t* c, uintptr_t addr, unsigned mask, unsigned flags, uintptr_t pc)
{
    SimThread* me = g_cur;
    uint64_t cur = mk_slot(me->vc.c[me->tid], me->tid, mask, flags, pc);
    const uint64_t idm = ~0x7fffffull;
    if (((c[0] ^ cur) & idm) == 0) return;
    int slot = -1, same = -1, hb = -1;
    for (int i = 0; i < 4; ++i) {
        uint64_t o = c[i];
        if (!o) { if (slot < 0) slot = i; continue; }
        unsigned om = SL_MASK(o);
        int ot = SL_TID(o);
        unsigned of = SL_FL(o);
        if (of & F_F) { if (om & mask) report_race(addr, o, flags, pc); }
        bool ordered = ot == me->tid || SL_CLK(o) <= me->vc.c[ot];
        if (ot == me->tid) {
            // an older access of ours that this one subsumes
            if ((om & ~mask) == 0 && ((flags & F_W) || !(of & F_W)) && ((of & F_A) || !(flags & F_A))) same = i;
            continue;
        }
        if (!(om & mask)) continue;
        if (!((of | flags) & F_W)) { if (ordered) hb = i; continue; }
        if ((of & F_A) && (flags & F_A)) { if (ordered) hb = i; continue; }
        if (!ordered) report_race(addr, o, flags, pc);
        hb = i;
    }
    if (same >= 0) slot = same;
    else if (slot < 0) slot = hb >= 0 ? hb : (int)((g_acc_base + g_countdown) & 3);
    c[slot] = cur;
}

static void shadow_access(uintptr_t a, size_t n, unsigned flags, uintptr_t pc)
{
    while (n) {
        unsigned off = a & 7;
        unsigned k = 8 - off < n ? 8 - off : (unsigned)n;
        unsigned mask = (unsigned)(((1u << k) - 1) << off);
        shadow_cell(cells_for(a), a, mask, flags, pc);
        a += k; n -= k;
    }
}

void rt_range(const void* p, size_t n, bool write, const void* pc)
{
    if (!g_cur || !g_race || !n) return;
    shadow_access((uintptr_t)p, n, write ? F_W : 0, (uintptr_t)pc);
}

static void shadow_reset(uintptr_t a, size_t n)
{
    uintptr_t e = (a + n + 7) & ~7ull;
    a &= ~7ull;
    while (a < e) {
        uint64_t* c = cells_for(a);
        uintptr_t pe = (a | 0xffff) + 1;
        if (pe > e) pe = e;
        memset(c, 0, ((pe - a) >> 3) * 32);
        a = pe;
    }
}

static void shadow_free(uintptr_t a, size_t n, uintptr_t pc)
{
    // freeing is a write; afterwards every access is an error
    shadow_access(a, n, F_W, pc);
    uint64_t f = mk_slot(0xffffff, g_cur->tid, 0xff, F_W | F_F, pc);
    uintptr_t e = a + (n & ~7ull);
    for (; a < e; a += 8) { uint64_t* c = cells_for(a); c[0] = f; c[1] = c[2] = c[3] = 0; }
}

static void preempt()
{
    // g_countdown reached zero at access number g_acc_base + g_acc_reload
    g_acc_base += g_acc_reload;
    uint64_t at = g_acc_base;
    SimThread* list[MAXT];
    int nrun;
    unsigned v = 0;
    if (g_cfg.replay) {
        if (g_pdev_i < g_npdevs && g_pdevs[g_pdev_i].seq == at) v = g_pdevs[g_pdev_i++].val;
        while (g_pdev_i < g_npdevs && g_pdevs[g_pdev_i].seq <= at) ++g_pdev_i;
        g_acc_reload = g_pdev_i < g_npdevs ? g_pdevs[g_pdev_i].seq - at : (1ull << 60);
    } else {
        g_acc_reload = g_cfg.access_mean > 0 ? rng_geo(g_cfg.access_mean) : (1ull << 60);
    }
    g_countdown = g_acc_reload;
    if (at > 400000000ull) sim_fail("livelock", "no completion within %lu memory accesses", (unsigned long)at);
    if (g_step > g_cfg.step_budget) return;
    candidates(list, false, &nrun);
    if (nrun <= 1) return;
    if (!g_cfg.replay) v = 1 + (unsigned)rng_n(nrun - 1);
    v %= nrun;
    if (!v) return;
    record(at, v, CH_PREEMPT);
    g_res->faults[CH_PREEMPT]++;
    tick(OP_PREEMPT);
    g_consec = 0;
    resume_state(list[v]);
    switch_to(list[v]);
}

static inline void acc(void* a, size_t n, unsigned flags, void* pc)
{
    if (!g_cur) return;
    if (__builtin_expect(--g_countdown == 0, 0)) preempt();
    if (g_race) shadow_access((uintptr_t)a, n, flags, (uintptr_t)pc);
}

EXPORT void __tsan_init() {}
EXPORT void __tsan_func_entry(void* pc)
{
    SimThread* t = g_cur;
    if (!t) return;
    if (t->depth < 256) t->stk[t->depth] = pc;
    ++t->depth;
}
EXPORT void __tsan_func_exit()
{
    SimThread* t = g_cur;
    if (t && t->depth) --t->depth;
}
#define TS(name, n, fl) EXPORT void __tsan_##name(void* a) { acc(a, n, fl, RA); }
TS(read1, 1, 0) TS(read2, 2, 0) TS(read4, 4, 0) TS(read8, 8, 0) TS(read16, 16, 0)
TS(write1, 1, F_W) TS(write2, 2, F_W) TS(write4, 4, F_W) TS(write8, 8, F_W) TS(write16, 16, F_W)
TS(unaligned_read2, 2, 0) TS(unaligned_read4, 4, 0) TS(unaligned_read8, 8, 0) TS(unaligned_read16, 16, 0)
TS(unaligned_write2, 2, F_W) TS(unaligned_write4, 4, F_W) TS(unaligned_write8, 8, F_W) TS(unaligned_write16, 16, F_W)
TS(volatile_read1, 1, 0) TS(volatile_read2, 2, 0) TS(volatile_read4, 4, 0) TS(volatile_read8, 8, 0) TS(volatile_read16, 16, 0)
TS(volatile_write1, 1, F_W) TS(volatile_write2, 2, F_W) TS(volatile_write4, 4, F_W) TS(volatile_write8, 8, F_W) TS(volatile_write16, 16, F_W)
TS(unaligned_volatile_read2, 2, 0) TS(unaligned_volatile_read4, 4, 0) TS(unaligned_volatile_read8, 8, 0) TS(unaligned_volatile_read16, 16, 0)
TS(unaligned_volatile_write2, 2, F_W) TS(unaligned_volatile_write4, 4, F_W) TS(unaligned_volatile_write8, 8, F_W) TS(unaligned_volatile_write16, 16, F_W)
EXPORT void __tsan_vptr_update(void** a, void* v) { if (*a != v) acc(a, 8, F_W, RA); }
EXPORT void __tsan_vptr_read(void** a) { acc(a, 8, 0, RA); }
EXPORT void __tsan_read_range(void* a, size_t n) { if (g_cur && n) acc(a, n, 0, RA); }
EXPORT void __tsan_write_range(void* a, size_t n) { if (g_cur && n) acc(a, n, F_W, RA); }
EXPORT void* __tsan_memcpy(void* d, const void* s, size_t n) { rt_range(s, n, false, RA); rt_range(d, n, true, RA); return memcpy(d, s, n); }
EXPORT void* __tsan_memset(void* d, int c, size_t n) { rt_range(d, n, true, RA); return memset(d, c, n); }
EXPORT void* __tsan_memmove(void* d, const void* s, size_t n) { rt_range(s, n, false, RA); rt_range(d, n, true, RA); return memmove(d, s, n); }
EXPORT void* __wrap_memcpy(void* d, const void* s, size_t n) { rt_range(s, n, false, RA); rt_range(d, n, true, RA); return memcpy(d, s, n); }
EXPORT void* __wrap_memmove(void* d, const void* s, size_t n) { rt_range(s, n, false, RA); rt_range(d, n, true, RA); return memmove(d, s, n); }
EXPORT void* __wrap_memset(void* d, int c, size_t n) { rt_range(d, n, true, RA); return memset(d, c, n); }
EXPORT int __wrap_memcmp(const void* a, const void* b, size_t n) { rt_range(a, n, false, RA); rt_range(b, n, false, RA); return memcmp(a, b, n); }

// ---------------------------------------------------------------- atomics

static inline bool is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST || mo == __ATOMIC_CONSUME; }
static inline bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

static void at_pre(const volatile void* a, size_t n, bool write, void* pc)
{
    rt_sched_point(OP_ATOMIC, (const void*)a);
    if (g_race) shadow_access((uintptr_t)a, n, (write ? F_W : 0) | F_A, (uintptr_t)pc);
}
static void at_load(const volatile void* a, int mo)
{
    if (!g_race) return;
    Sync* s = rt_sync((const void*)a);
    if (is_acq(mo)) vc_join(g_cur->vc, s->clk); else vc_join(g_cur->acq, s->clk);
}
static void at_store(const volatile void* a, int mo)
{
    if (!g_race) return;
    Sync* s = rt_sync((const void*)a);
    SimThread* me = g_cur;
    if (is_rel(mo)) { s->clk = me->vc; me->vc.c[me->tid]++; }
    else s->clk = me->rel;
}
static void at_rmw(const volatile void* a, int mo)
{
    if (!g_race) return;
    Sync* s = rt_sync((const void*)a);
    SimThread* me = g_cur;
    if (is_acq(mo)) vc_join(me->vc, s->clk); else vc_join(me->acq, s->clk);
    if (is_rel(mo)) { vc_join(s->clk, me->vc); me->vc.c[me->tid]++; }
    else vc_join(s->clk, me->rel);
}

#define ATOMIC_FUNCS(B, T)                                                                                   \
EXPORT T __tsan_atomic##B##_load(const volatile T* a, int mo)                                                \
{ if (!g_cur) return __atomic_load_n(a, __ATOMIC_SEQ_CST); at_pre(a, sizeof(T), false, RA); T v = *a; at_load(a, mo); return v; } \
EXPORT void __tsan_atomic##B##_store(volatile T* a, T v, int mo)                                             \
{ if (!g_cur) { __atomic_store_n(a, v, __ATOMIC_SEQ_CST); return; } at_pre(a, sizeof(T), true, RA); *a = v; at_store(a, mo); } \
EXPORT T __tsan_atomic##B##_exchange(volatile T* a, T v, int mo)                                             \
{ if (!g_cur) return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); at_pre(a, sizeof(T), true, RA); T o = *a; *a = v; at_rmw(a, mo); return o; } \
RMW(B, T, fetch_add, o + v) RMW(B, T, fetch_sub, o - v) RMW(B, T, fetch_and, o & v)                           \
RMW(B, T, fetch_or, o | v) RMW(B, T, fetch_xor, o ^ v) RMW(B, T, fetch_nand, ~(o & v))                        \
CAS(B, T, strong) CAS(B, T, weak)                                                                            \
EXPORT T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T e, T v, int mo, int fmo)                   \
{ if (!g_cur) { __atomic_compare_exchange_n(a, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; } \
  at_pre(a, sizeof(T), true, RA); T o = *a; if (o == e) { *a = v; at_rmw(a, mo); } else at_load(a, fmo); return o; }
#define RMW(B, T, name, expr)                                                                                \
EXPORT T __tsan_atomic##B##_##name(volatile T* a, T v, int mo)                                               \
{ if (!g_cur) { T o = *a, n = (T)(expr); while (!__atomic_compare_exchange_n(a, &o, n, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) n = (T)(expr); return o; } \
  at_pre(a, sizeof(T), true, RA); T o = *a; *a = (T)(expr); at_rmw(a, mo); return o; }
#define CAS(B, T, name)                                                                                      \
EXPORT int __tsan_atomic##B##_compare_exchange_##name(volatile T* a, T* e, T v, int mo, int fmo)             \
{ if (!g_cur) return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);        \
  at_pre(a, sizeof(T), true, RA); T o = *a; if (o == *e) { *a = v; at_rmw(a, mo); return 1; } at_load(a, fmo); *e = o; return 0; }
ATOMIC_FUNCS(8, uint8_t)
ATOMIC_FUNCS(16, uint16_t)
ATOMIC_FUNCS(32, uint32_t)
ATOMIC_FUNCS(64, uint64_t)
EXPORT void __tsan_atomic_thread_fence(int mo)
{
    if (!g_cur) return;
    rt_sched_point(OP_ATOMIC, nullptr);
    if (!g_race) return;
    SimThread* me = g_cur;
    if (is_acq(mo)) vc_join(me->vc, me->acq);
    if (is_rel(mo)) { me->rel = me->vc; me->vc.c[me->tid]++; }
}
EXPORT void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------------- threads

struct Reals {
    int (*mutex_lock)(pthread_mutex_t*);
    int (*mutex_trylock)(pthread_mutex_t*);
    int (*mutex_unlock)(pthread_mutex_t*);
    int (*create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
    int (*join)(pthread_t, void**);
    int (*detach)(pthread_t);
    int (*cond_wait)(pthread_cond_t*, pthread_mutex_t*);
    int (*cond_signal)(pthread_cond_t*);
    int (*cond_broadcast)(pthread_cond_t*);
    int (*rdlock)(pthread_rwlock_t*);
    int (*tryrdlock)(pthread_rwlock_t*);
    int (*wrlock)(pthread_rwlock_t*);
    int (*trywrlock)(pthread_rwlock_t*);
    int (*rwunlock)(pthread_rwlock_t*);
    int (*once)(pthread_once_t*, void (*)());
    int (*guard_acquire)(uint64_t*);
    void (*guard_release)(uint64_t*);
    void (*guard_abort)(uint64_t*);
    int (*thread_atexit)(void (*)(void*), void*, void*);
    int (*clock_gettime)(clockid_t, timespec*);
    int (*nanosleep)(const timespec*, timespec*);
    int (*sched_yield)();
    long (*syscall)(long, ...);
    int (*get_nprocs)();
} R;

static void load_reals()
{
    static bool done = false;
    if (done) return;
    done = true;
#define L(f, n) *(void**)&R.f = rt_real(n)
    L(mutex_lock, "pthread_mutex_lock"); L(mutex_trylock, "pthread_mutex_trylock"); L(mutex_unlock, "pthread_mutex_unlock");
    L(create, "pthread_create"); L(join, "pthread_join"); L(detach, "pthread_detach");
    *(void**)&R.cond_wait = dlvsym(RTLD_NEXT, "pthread_cond_wait", "GLIBC_2.3.2");
    *(void**)&R.cond_signal = dlvsym(RTLD_NEXT, "pthread_cond_signal", "GLIBC_2.3.2");
    *(void**)&R.cond_broadcast = dlvsym(RTLD_NEXT, "pthread_cond_broadcast", "GLIBC_2.3.2");
    L(rdlock, "pthread_rwlock_rdlock"); L(tryrdlock, "pthread_rwlock_tryrdlock"); L(wrlock, "pthread_rwlock_wrlock");
    L(trywrlock, "pthread_rwlock_trywrlock"); L(rwunlock, "pthread_rwlock_unlock"); L(once, "pthread_once");
    L(guard_acquire, "__cxa_guard_acquire"); L(guard_release, "__cxa_guard_release"); L(guard_abort, "__cxa_guard_abort");
    L(thread_atexit, "__cxa_thread_atexit"); L(clock_gettime, "clock_gettime"); L(nanosleep, "nanosleep");
    L(sched_yield, "sched_yield"); L(syscall, "syscall"); L(get_nprocs, "get_nprocs");
}
__attribute__((constructor(101))) static void early() { load_reals(); }

static void init_thread(SimThread* t, int tid)
{
    t->tid = tid;
    t->state = TS_RUNNABLE;
    t->armed = g_default_armed;
    t->prio = 1000000 + (g_cfg.replay ? 0 : rng_n(1ull << 40));
    t->depth = 0;
    t->dtors = nullptr;
    t->detached = t->joined = false;
    memset(&t->vc, 0, sizeof t->vc);
    memset(&t->acq, 0, sizeof t->acq);
    memset(&t->rel, 0, sizeof t->rel);
    t->vc.c[tid] = 1;
}

static void run_dtors(SimThread* me)
{
    while (DtorNode* d = me->dtors) { me->dtors = d->next; d->fn(d->obj); }
}

extern "C" HIDDEN void simrt_thread_main()
{
    SimThread* me = g_cur;
    tick(OP_START);
    me->ret = me->fn(me->arg);
    run_dtors(me);
    tick(OP_END);
    me->depth = 0;
    me->final_vc = me->vc;
    me->state = TS_DONE;
    rt_wake_all(OP_JOIN, me);
    SimThread* t = pick(false);
    g_consec = 0;
    resume_state(t);
    switch_to(t);
    _exit(94);
}

EXPORT int pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg)
{
    if (!g_cur) { load_reals(); return R.create(out, attr, fn, arg); }
    rt_sched_point(OP_CREATE, nullptr);
    if (sim_fault(CH_THREAD_FAIL, 1)) return EAGAIN;
    if (g_nth >= MAXT) sim_fail("internal-threads", "simulator supports %d threads per run", MAXT);
    int tid = g_nth;
    SimThread* t = &g_th[tid];
    Parked& p = g_parked[tid];
    t->fs = p.fs;
    t->pth = p.self;
    t->fn = fn;
    t->arg = arg;
    init_thread(t, tid);
    ++g_nth;
    if (g_race) {
        uint32_t own = t->vc.c[tid];
        t->vc = g_cur->vc;
        t->vc.c[tid] = own;
        g_cur->vc.c[g_cur->tid]++;
    }
    int detach = 0;
    if (attr) pthread_attr_getdetachstate(attr, &detach);
    t->detached = detach == PTHREAD_CREATE_DETACHED;
    uintptr_t top = (uintptr_t)p.stack + STACK_SIZE;
    top &= ~63ull;
    uint64_t* sp = (uint64_t*)top;
    *--sp = 0;
    *--sp = 0;                                 // 16-byte aligned at the call in the trampoline
    *--sp = (uint64_t)(void*)&simrt_trampoline;
    for (int i = 0; i < 6; ++i) *--sp = 0;
    --sp;
    uint32_t mxcsr; uint16_t cw;
    asm volatile("stmxcsr %0" : "=m"(mxcsr));
    asm volatile("fnstcw %0" : "=m"(cw));
    ((uint32_t*)sp)[0] = mxcsr;
    ((uint32_t*)sp)[1] = cw;
    t->sp = sp;
    *out = (pthread_t)p.self;
    rt_sched_point(OP_CREATE, nullptr);
    return 0;
}

static SimThread* by_pth(pthread_t p)
{
    for (int i = 0; i < g_nth; ++i) if (g_th[i].pth == (unsigned long)p) return &g_th[i];
    return nullptr;
}

EXPORT int pthread_join(pthread_t p, void** ret)
{
    if (!g_cur) { load_reals(); return R.join(p, ret); }
    rt_sched_point(OP_JOIN, nullptr);
    SimThread* t = by_pth(p);
    if (!t) return ESRCH;
    if (t == g_cur) return EDEADLK;
    if (t->detached || t->joined) return EINVAL;
    while (t->state != TS_DONE) rt_block(OP_JOIN, t, false, 0);
    t->joined = true;
    if (g_race) vc_join(g_cur->vc, t->final_vc);
    if (ret) *ret = t->ret;
    return 0;
}

EXPORT int pthread_detach(pthread_t p)
{
    if (!g_cur) { load_reals(); return R.detach(p); }
    SimThread* t = by_pth(p);
    if (!t) return ESRCH;
    t->detached = true;
    return 0;
}

EXPORT int __cxa_thread_atexit(void (*fn)(void*), void* obj, void* dso)
{
    if (!g_cur) { load_reals(); return R.thread_atexit(fn, obj, dso); }
    DtorNode* d = (DtorNode*)rt_alloc(sizeof(DtorNode));
    d->fn = fn; d->obj = obj; d->next = g_cur->dtors;
    g_cur->dtors = d;
    return 0;
}

// ---------------------------------------------------------------- mutexes, condition variables, rwlocks

static inline bool mutex_recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }

static void touch(const void* a, const void* pc)
{
    if (g_race) shadow_access((uintptr_t)a, 1, F_A, (uintptr_t)pc);   // finds use after free; atomics never race with it
}

static int lock_mutex(pthread_mutex_t* m)
{
    SimThread* me = g_cur;
    Sync* s = rt_sync(m);
    if (s->owner == me->tid && mutex_recursive(m)) { s->count++; return 0; }
    if (s->owner == me->tid && (m->__data.__kind & 3) == PTHREAD_MUTEX_ERRORCHECK_NP) return EDEADLK;
    while ((s = rt_sync(m))->owner >= 0) rt_block(OP_LOCK, m, false, 0);
    s->owner = me->tid;
    s->count = 1;
    rt_acquire(s);
    return 0;
}

static int unlock_mutex(pthread_mutex_t* m)
{
    Sync* s = rt_sync(m);
    if (s->owner != g_cur->tid) sim_fail("lock-misuse", "mutex unlocked by a thread that does not hold it");
    if (--s->count > 0) return 0;
    rt_release(s);
    s->owner = -1;
    rt_wake_all(OP_LOCK, m);
    return 0;
}

EXPORT int pthread_mutex_lock(pthread_mutex_t* m)
{
    if (!g_cur || rt_foreign(RA)) { load_reals(); return R.mutex_lock(m); }
    rt_sched_point(OP_LOCK, m);
    touch(m, RA);
    return lock_mutex(m);
}
EXPORT int pthread_mutex_trylock(pthread_mutex_t* m)
{
    if (!g_cur || rt_foreign(RA)) { load_reals(); return R.mutex_trylock(m); }
    rt_sched_point(OP_TRYLOCK, m);
    touch(m, RA);
    Sync* s = rt_sync(m);
    if (s->owner >= 0) {
        if (s->owner == g_cur->tid && mutex_recursive(m)) { s->count++; return 0; }
        return EBUSY;
    }
    s->owner = g_cur->tid;
    s->count = 1;
    rt_acquire(s);
    return 0;
}
static uint64_t abs_to_sim(const timespec* ts, clockid_t);
EXPORT int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const timespec* ts)
{
    rt_sched_point(OP_LOCK, m);
    touch(m, RA);
    uint64_t until = abs_to_sim(ts, c);
    Sync* s;
    while ((s = rt_sync(m))->owner >= 0) {
        rt_block(OP_LOCK, m, true, until);
        if (g_cur->timed_out && rt_sync(m)->owner >= 0) return ETIMEDOUT;
    }
    s->owner = g_cur->tid; s->count = 1;
    rt_acquire(s);
    return 0;
}
EXPORT int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* ts) { return pthread_mutex_clocklock(m, CLOCK_REALTIME, ts); }
EXPORT int pthread_mutex_unlock(pthread_mutex_t* m)
{
    if (!g_cur || rt_foreign(RA)) { load_reals(); return R.mutex_unlock(m); }
    touch(m, RA);
    unlock_mutex(m);
    rt_sched_point(OP_UNLOCK, m);
    return 0;
}
EXPORT int pthread_mutex_destroy(pthread_mutex_t* m)
{
    if (g_cur) {
        Sync* s = rt_sync(m);
        s->owner = -1;
    }
    return 0;
}

static int cond_wait_until(pthread_cond_t* c, pthread_mutex_t* m, bool timed, uint64_t until, const void* pc)
{
    rt_sched_point(OP_CWAIT, c);
    touch(c, pc);
    Sync* s = rt_sync(m);
    if (s->owner != g_cur->tid) sim_fail("lock-misuse", "condition wait without holding the mutex");
    int cnt = s->count;
    s->count = 1;
    unlock_mutex(m);
    rt_block(OP_CWAIT, c, timed, until);
    bool to = g_cur->timed_out;
    g_cur->timed = false;
    lock_mutex(m);
    rt_sync(m)->count = cnt;
    return to ? ETIMEDOUT : 0;
}
EXPORT int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    if (!g_cur || rt_foreign(RA)) { load_reals(); return R.cond_wait(c, m); }
    return cond_wait_until(c, m, false, 0, RA);
}
EXPORT int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t ck, const timespec* ts)
{
    return cond_wait_until(c, m, true, abs_to_sim(ts, ck), RA);
}
EXPORT int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts)
{
    return cond_wait_until(c, m, true, abs_to_sim(ts, CLOCK_REALTIME), RA);
}
EXPORT int pthread_cond_signal(pthread_cond_t* c)
{
    if (!g_cur || rt_foreign(RA)) { load_reals(); return R.cond_signal(c); }
    rt_sched_point(OP_SIGNAL, c);
    touch(c, RA);
    wake_one(OP_CWAIT, c);
    return 0;
}
EXPORT int pthread_cond_broadcast(pthread_cond_t* c)
{
    if (!g_cur || rt_foreign(RA)) { load_reals(); return R.cond_broadcast(c); }
    rt_sched_point(OP_BROADCAST, c);
    touch(c, RA);
    rt_wake_all(OP_CWAIT, c);
    return 0;
}
EXPORT int pthread_cond_destroy(pthread_cond_t*) { return 0; }

EXPORT int pthread_rwlock_rdlock(pthread_rwlock_t* l)
{
    if (!g_cur || rt_foreign(RA)) { load_reals(); return R.rdlock(l); }
    rt_sched_point(OP_RDLOCK, l);
    touch(l, RA);
    if (rt_sync(l)->owner == g_cur->tid) return EDEADLK;
    while (rt_sync(l)->owner >= 0) rt_block(OP_RDLOCK, l, false, 0);
    Sync* s = rt_sync(l);
    s->readers++;
    rt_acquire(s);
    return 0;
}
EXPORT int pthread_rwlock_tryrdlock(pthread_rwlock_t* l)
{
    if (!g_cur || rt_foreign(RA)) { load_reals(); return R.tryrdlock(l); }
    rt_sched_point(OP_RDLOCK, l);
    touch(l, RA);
    Sync* s = rt_sync(l);
    if (s->owner >= 0) return EBUSY;
    s->readers++;
    rt_acquire(s);
    return 0;
}
EXPORT int pthread_rwlock_wrlock(pthread_rwlock_t* l)
{
    if (!g_cur || rt_foreign(RA)) { load_reals(); return R.wrlock(l); }
    rt_sched_point(OP_WRLOCK, l);
    touch(l, RA);
    if (rt_sync(l)->owner == g_cur->tid) return EDEADLK;
    while (rt_sync(l)->owner >= 0 || rt_sync(l)->readers > 0) rt_block(OP_WRLOCK, l, false, 0);
    Sync* s = rt_sync(l);
    s->owner = g_cur->tid;
    rt_acquire(s);
    if (g_race) vc_join(g_cur->vc, s->rclk);
    return 0;
}
EXPORT int pthread_rwlock_trywrlock(pthread_rwlock_t* l)
{
    if (!g_cur || rt_foreign(RA)) { load_reals(); return R.trywrlock(l); }
    rt_sched_point(OP_WRLOCK, l);
    touch(l, RA);
    Sync* s = rt_sync(l);
    if (s->owner >= 0 || s->readers > 0) return EBUSY;
    s->owner = g_cur->tid;
    rt_acquire(s);
    if (g_race) vc_join(g_cur->vc, s->rclk);
    return 0;
}
EXPORT int pthread_rwlock_unlock(pthread_rwlock_t* l)
{
    if (!g_cur || rt_foreign(RA)) { load_reals(); return R.rwunlock(l); }
    touch(l, RA);
    Sync* s = rt_sync(l);
    if (s->owner == g_cur->tid) { rt_release(s); s->owner = -1; }
    else if (s->readers > 0) {
        s->readers--;
        if (g_race) { vc_join(s->rclk, g_cur->vc); g_cur->vc.c[g_cur->tid]++; }
    }
    else sim_fail("lock-misuse", "rwlock unlocked by a thread that does not hold it");
    rt_wake_all(OP_RDLOCK, l);
    rt_wake_all(OP_WRLOCK, l);
    rt_sched_point(OP_RWUNLOCK, l);
    return 0;
}
EXPORT int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }

EXPORT int pthread_once(pthread_once_t* ctl, void (*fn)())
{
    if (!g_cur || rt_foreign(RA)) { load_reals(); return R.once(ctl, fn); }
    rt_sched_point(OP_ONCE, ctl);
    for (;;) {
        Sync* s = rt_sync(ctl);
        if (*(volatile int*)ctl == 2) { rt_acquire(s); return 0; }
        if (!s->inprogress) break;
        rt_block(OP_ONCE, ctl, false, 0);
    }
    rt_sync(ctl)->inprogress = 1;
    try { fn(); }
    catch (...) { rt_sync(ctl)->inprogress = 0; rt_wake_all(OP_ONCE, ctl); throw; }
    Sync* s = rt_sync(ctl);
    s->inprogress = 0;
    *(volatile int*)ctl = 2;
    rt_release(s);
    rt_wake_all(OP_ONCE, ctl);
    return 0;
}

EXPORT int __cxa_guard_acquire(uint64_t* g)
{
    if (!g_cur || rt_foreign(RA)) { load_reals(); return R.guard_acquire(g); }
    rt_sched_point(OP_GUARD, g);
    for (;;) {
        Sync* s = rt_sync(g);
        if (*(volatile char*)g) { rt_acquire(s); return 0; }
        if (!s->inprogress) { s->inprogress = 1; rt_acquire(s); return 1; }
        rt_block(OP_GUARD, g, false, 0);
    }
}
EXPORT void __cxa_guard_release(uint64_t* g)
{
    if (!g_cur || rt_foreign(RA)) { load_reals(); R.guard_release(g); return; }
    Sync* s = rt_sync(g);
    s->inprogress = 0;
    *(volatile char*)g = 1;
    rt_release(s);
    rt_wake_all(OP_GUARD, g);
    rt_sched_point(OP_GUARD, g);
}
EXPORT void __cxa_guard_abort(uint64_t* g)
{
    if (!g_cur || rt_foreign(RA)) { load_reals(); R.guard_abort(g); return; }
    Sync* s = rt_sync(g);
    s->inprogress = 0;
    rt_release(s);
    rt_wake_all(OP_GUARD, g);
}

// ---------------------------------------------------------------- clocks, sleeping, futexes

static const uint64_t EPOCH_REAL = 1700000000000000000ull, EPOCH_MONO = 1000000000000ull;

static uint64_t abs_to_sim(const timespec* ts, clockid_t c)
{
    uint64_t t = (uint64_t)ts->tv_sec * 1000000000ull + (uint64_t)ts->tv_nsec;
    uint64_t base = c == CLOCK_REALTIME ? EPOCH_REAL : EPOCH_MONO;
    return t > base ? t - base : 0;
}
EXPORT int clock_gettime(clockid_t c, timespec* ts)
{
    if (!g_cur || rt_foreign(RA)) { load_reals(); return R.clock_gettime(c, ts); }
    uint64_t t = g_now + (c == CLOCK_REALTIME ? EPOCH_REAL : EPOCH_MONO);
    ts->tv_sec = t / 1000000000ull;
    ts->tv_nsec = t % 1000000000ull;
    rt_sched_point(OP_YIELD, nullptr);
    return 0;
}
EXPORT int gettimeofday(timeval* tv, void*)
{
    timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
EXPORT time_t time(time_t* p)
{
    timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
    if (p) *p = ts.tv_sec;
    return ts.tv_sec;
}
EXPORT int nanosleep(const timespec* ts, timespec* rem)
{
    if (!g_cur) { load_reals(); return R.nanosleep(ts, rem); }
    rt_sleep((uint64_t)ts->tv_sec * 1000000000ull + (uint64_t)ts->tv_nsec);
    return 0;
}
EXPORT int clock_nanosleep(clockid_t c, int flags, const timespec* ts, timespec*)
{
    if (flags & TIMER_ABSTIME) { uint64_t u = abs_to_sim(ts, c); rt_sleep(u > g_now ? u - g_now : 0); }
    else rt_sleep((uint64_t)ts->tv_sec * 1000000000ull + (uint64_t)ts->tv_nsec);
    return 0;
}
EXPORT int usleep(useconds_t us)
{
    timespec ts{(time_t)(us / 1000000), (long)(us % 1000000) * 1000};
    return nanosleep(&ts, nullptr);
}
EXPORT unsigned sleep(unsigned s) { timespec ts{(time_t)s, 0}; nanosleep(&ts, nullptr); return 0; }
EXPORT int sched_yield()
{
    if (!g_cur) { load_reals(); return R.sched_yield(); }
    rt_sched_point(OP_YIELD, nullptr, true);
    return 0;
}
EXPORT int get_nprocs() { if (!g_cur) { load_reals(); return R.get_nprocs(); } return g_cfg.nprocs; }

EXPORT long syscall(long nr, ...)
{
    va_list ap; va_start(ap, nr);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (!g_cur || rt_foreign(RA) || nr != SYS_futex) { load_reals(); return R.syscall(nr, a, b, c, d, e, f); }
    int op = (int)b & 127;
    const void* addr = (const void*)a;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
        rt_sched_point(OP_FUTEX_WAIT, addr);
        touch(addr, RA);
        if (*(volatile int*)addr != (int)c) { errno = EAGAIN; return -1; }
        const timespec* ts = (const timespec*)d;
        bool timed = ts != nullptr;
        uint64_t until = 0;
        if (timed) until = op == FUTEX_WAIT ? g_now + (uint64_t)ts->tv_sec * 1000000000ull + ts->tv_nsec
                                            : abs_to_sim(ts, ((int)b & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC);
        rt_block(OP_FUTEX_WAIT, addr, timed, until);
        if (g_cur->timed_out) { errno = ETIMEDOUT; return -1; }
        return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
        rt_sched_point(OP_FUTEX_WAKE, addr);
        long n = 0;
        while (n < c && wake_one(OP_FUTEX_WAIT, addr)) ++n;
        return n;
    }
    sim_fail("internal-futex", "futex operation %d is not supported by the simulator", op);
    return -1;
}

// ---------------------------------------------------------------- allocation

struct Quar { void* p; size_t n; };
static const unsigned QN = 1u << 15;
static Quar* g_quar;
static unsigned g_qh = 0, g_qt = 0;
static size_t g_qbytes = 0;
static size_t g_big_min = 0;
struct Big { void* p; size_t n; };
static Big* g_big;
static int g_nbig = 0;
static uint64_t g_big_peak = 0, g_big_bytes = 0, g_big_peak_bytes = 0, g_big_largest = 0;

SIM_API void sim_big_alloc_watch(size_t m) { g_big_min = m; }
SIM_API void sim_big_alloc_stats(uint64_t* live, uint64_t* peak, uint64_t* peak_bytes, uint64_t* largest)
{
    *live = g_nbig; *peak = g_big_peak; *peak_bytes = g_big_peak_bytes; *largest = g_big_largest;
}

static void on_alloc(void* p, size_t n, bool fill)
{
    if (!p) return;
    if (g_big_min && n >= g_big_min && g_nbig < 4096) {
        g_big[g_nbig++] = {p, n};
        if ((uint64_t)g_nbig > g_big_peak) g_big_peak = g_nbig;
        g_big_bytes += n;
        if (g_big_bytes > g_big_peak_bytes) g_big_peak_bytes = g_big_bytes;
        if (n > g_big_largest) g_big_largest = n;
    }
    if (fill) memset(p, 0xcd, n < 2048 ? n : 2048);
    if (g_race) shadow_reset((uintptr_t)p, malloc_usable_size(p));
}

static void on_free(void* p, const void* pc)
{
    size_t n = malloc_usable_size(p);
    if (g_nbig)
        for (int i = 0; i < g_nbig; ++i)
            if (g_big[i].p == p) { g_big_bytes -= g_big[i].n; g_big[i] = g_big[--g_nbig]; break; }
    if (g_race) shadow_free((uintptr_t)p, n, (uintptr_t)pc);
    sync_drop_range((uintptr_t)p, (uintptr_t)p + n);
    if (n > (1u << 18)) { __libc_free(p); return; }
    memset(p, 0xdd, n < 8192 ? n : 8192);
    if (g_qt - g_qh == QN || g_qbytes > (16u << 20)) {
        while (g_qt != g_qh && (g_qt - g_qh == QN || g_qbytes > (12u << 20))) {
            Quar& q = g_quar[g_qh++ & (QN - 1)];
            g_qbytes -= q.n;
            __libc_free(q.p);
        }
    }
    g_quar[g_qt++ & (QN - 1)] = {p, n};
    g_qbytes += n;
}

// A second free of a quarantined block would go unnoticed by the allocator below.
static bool in_quarantine(void* p)
{
    for (unsigned i = g_qh; i != g_qt; ++i) if (g_quar[i & (QN - 1)].p == p) return true;
    return false;
}

EXPORT void* malloc(size_t n)
{
    void* p = __libc_malloc(n);
    if (g_cur) on_alloc(p, n, true);
    return p;
}
EXPORT void free(void* p)
{
    if (!p) return;
    if (!g_cur) { __libc_free(p); return; }
    size_t n = malloc_usable_size(p);
    if (n >= 8 && *(uint64_t*)p == 0xddddddddddddddddull && in_quarantine(p)) sim_fail("uaf", "double free of a heap block at {0x%lx}", (long)RA);
    on_free(p, RA);
}
EXPORT void* calloc(size_t a, size_t b)
{
    void* p = __libc_calloc(a, b);
    if (g_cur) on_alloc(p, a * b, false);
    return p;
}
EXPORT void* realloc(void* p, size_t n)
{
    if (!g_cur) return __libc_realloc(p, n);
    void* q = malloc(n);
    if (p && q) { size_t o = malloc_usable_size(p); memcpy(q, p, o < n ? o : n); on_free(p, RA); }
    return q;
}
EXPORT void* memalign(size_t al, size_t n)
{
    if (g_cur && !rt_foreign(RA) && sim_fault(CH_ALLOC_FAIL, 1)) { errno = ENOMEM; return nullptr; }
    void* p = __libc_memalign(al, n);
    if (g_cur) on_alloc(p, n, true);
    return p;
}
EXPORT void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
EXPORT int posix_memalign(void** out, size_t al, size_t n) { void* p = memalign(al, n); if (!p) return ENOMEM; *out = p; return 0; }

static void* new_impl(size_t n, size_t al, bool nothrow)
{
    if (n == 0) n = 1;
    if (g_cur && sim_fault(CH_ALLOC_FAIL, 1)) { if (nothrow) return nullptr; throw std::bad_alloc(); }
    void* p = al ? __libc_memalign(al, n) : __libc_malloc(n);
    if (!p) { if (nothrow) return nullptr; throw std::bad_alloc(); }
    if (g_cur) on_alloc(p, n, true);
    return p;
}
#define NEWX __attribute__((visibility("default")))
NEWX void* operator new(size_t n) { return new_impl(n, 0, false); }
NEWX void* operator new[](size_t n) { return new_impl(n, 0, false); }
NEWX void* operator new(size_t n, const std::nothrow_t&) noexcept { return new_impl(n, 0, true); }
NEWX void* operator new[](size_t n, const std::nothrow_t&) noexcept { return new_impl(n, 0, true); }
NEWX void* operator new(size_t n, std::align_val_t a) { return new_impl(n, (size_t)a, false); }
NEWX void* operator new[](size_t n, std::align_val_t a) { return new_impl(n, (size_t)a, false); }
NEWX void operator delete(void* p) noexcept { free(p); }
NEWX void operator delete[](void* p) noexcept { free(p); }
NEWX void operator delete(void* p, size_t) noexcept { free(p); }
NEWX void operator delete[](void* p, size_t) noexcept { free(p); }
NEWX void operator delete(void* p, std::align_val_t) noexcept { free(p); }
NEWX void operator delete[](void* p, std::align_val_t) noexcept { free(p); }
NEWX void operator delete(void* p, size_t, std::align_val_t) noexcept { free(p); }
NEWX void operator delete[](void* p, size_t, std::align_val_t) noexcept { free(p); }

// ---------------------------------------------------------------- start-up and runs

static const size_t MAXH = 1u << 16;
static SimEv* g_hist;
static volatile int g_parked_ready = 0;
static int g_tid_off = -1;
static void* park(void* arg)
{
    Parked* p = (Parked*)arg;
    uint64_t fs;
    asm volatile("movq %%fs:0, %0" : "=r"(fs));
    p->fs = fs;
    p->self = (unsigned long)pthread_self();
    if (p == &g_parked[1]) {   // where the C library keeps the kernel thread id
        int tid = (int)R.syscall(SYS_gettid);
        for (int o = 0; o < 1500; o += 4) if (*(int*)(p->self + o) == tid) { g_tid_off = o; break; }
    }
    __sync_fetch_and_add(&g_parked_ready, 1);
    static volatile int never = 0;
    for (;;) R.syscall(SYS_futex, &never, FUTEX_WAIT, 0, nullptr, nullptr, 0);
    return nullptr;
}

SIM_API void sim_init()
{
    if (g_inited) return;
    g_inited = true;
    load_reals();
    mallopt(M_ARENA_MAX, 1);
    mallopt(M_MMAP_THRESHOLD, 16 << 20);
    mallopt(M_TRIM_THRESHOLD, 1 << 30);
    g_use_wrfs = (getauxval(AT_HWCAP2) & 2) != 0;
    int idx = 0;
    dl_iterate_phdr(phdr_cb, &idx);
    auto map = [](size_t n) {
        void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) { perror("simrt: mmap"); _exit(97); }
        return (char*)p;
    };
    size_t an = 256u << 20;
    g_arena = map(an); g_arena_end = g_arena + an;
    g_sync = (Sync**)map(SYNC_BUCKETS * sizeof(Sync*));
    g_pages = (Page*)map(PG_BUCKETS * sizeof(Page));
    size_t sn = 2ull << 30;
    g_shadow = map(sn); g_shadow_end = g_shadow + sn;
    g_quar = (Quar*)map(QN * sizeof(Quar));
    g_big = (Big*)map(4096 * sizeof(Big));
    g_hist = (SimEv*)map(MAXH * sizeof(SimEv));
    // thread control blocks (thread-local storage) for the simulated threads
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 64 * 1024);
    for (int i = 1; i < MAXT; ++i) {
        g_parked[i].stack = map(STACK_SIZE);
        pthread_t t;
        if (R.create(&t, &at, park, &g_parked[i])) { fprintf(stderr, "simrt: cannot create threads\n"); _exit(97); }
    }
    while (g_parked_ready < MAXT - 1) R.sched_yield();
    rt_fs_init();
    rt_evp_init();
    // touch lazily initialised library state
    try { throw 1; } catch (int) {}
}


static size_t g_nhist = 0;
SIM_API void sim_hist(int op, int64_t a, int64_t b, int64_t c)
{
    if (g_nhist < MAXH) g_hist[g_nhist++] = SimEv{++g_event, g_cur ? g_cur->tid : -1, op, a, b, c};
    rt_mix(((uint64_t)op << 40) ^ (uint64_t)a * 31 ^ (uint64_t)b * 17 ^ (uint64_t)c);
}
SIM_API const SimEv* sim_hist_get(size_t* n) { *n = g_nhist; return g_hist; }

static int g_live_at_leave = -1;
SIM_API void sim_leave()
{
    g_live_at_leave = sim_live_threads();
    g_cur = nullptr;
}

SIM_API void sim_end()
{
    if (sim_live_threads() > 1) {
        // threads left behind: let the harness decide; here only recorded
        g_res->user[14] = sim_live_threads() - 1;
    }
    finish(1);
}

SIM_API void sim_run(const SimCfg* cfg, SimResult* res, sim_main_fn fn, void* arg)
{
    g_cfg = *cfg;
    g_res = res;
    uint64_t s = cfg->seed * 0x9e3779b97f4a7c15ull + 12345;
    g_rng[0] = sim_splitmix(s);
    g_rng[1] = sim_splitmix(s);
    g_race = cfg->race;
    g_starve = cfg->starve_mask;
    g_default_armed = ~0u;
    // fork clears the thread ids of all other threads, but locks inside libcrypto compare them
    if (g_tid_off >= 0) for (int i = 1; i < MAXT; ++i) *(int*)(g_parked[i].self + g_tid_off) = 1000000 + i;
    // split replay deviations
    g_nsdevs = 0;
    while (g_nsdevs < cfg->ndevs && cfg->devs[g_nsdevs].kind != CH_PREEMPT) ++g_nsdevs;
    g_pdevs = cfg->devs + g_nsdevs;
    g_npdevs = cfg->ndevs - g_nsdevs;
    g_npct = cfg->pct_depth > 63 ? 63 : cfg->pct_depth;
    if (!cfg->replay) {
        for (int i = 0; i < g_npct; ++i) g_pct_pts[i] = 1 + rng_n(cfg->pct_len);
        g_acc_reload = cfg->access_mean > 0 ? rng_geo(cfg->access_mean) : (1ull << 60);
        g_burst_left = rng_geo(cfg->burst_mean);
    } else {
        g_acc_reload = g_npdevs ? g_pdevs[0].seq : (1ull << 60);
    }
    g_countdown = g_acc_reload;

    static char alt[65536];
    stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt;
    sigaltstack(&ss, nullptr);
    struct sigaction sa{};
    sa.sa_sigaction = on_signal;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    for (int sg : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGPROF, SIGXCPU}) sigaction(sg, &sa, nullptr);
    std::set_terminate(on_terminate);
    itimerval it{}; it.it_value.tv_sec = (long)cfg->cpu_seconds;
    setitimer(ITIMER_PROF, &it, nullptr);

    SimThread* t = &g_th[0];
    uint64_t fs;
    asm volatile("movq %%fs:0, %0" : "=r"(fs));
    t->fs = fs;
    t->pth = (unsigned long)pthread_self();
    g_nth = 1;
    init_thread(t, 0);
    g_cur = t;
    fn(arg);
    sim_end();
    _exit(0);
}
