// Internals shared by the runtime's translation units.
#pragma once
#include "simrt.h"

#define MAXT 48
#define HIDDEN __attribute__((visibility("hidden")))

enum Op : int {
    OP_START, OP_END, OP_LOCK, OP_TRYLOCK, OP_UNLOCK, OP_CWAIT, OP_SIGNAL, OP_BROADCAST, OP_RDLOCK, OP_WRLOCK,
    OP_RWUNLOCK, OP_ATOMIC, OP_FUTEX_WAIT, OP_FUTEX_WAKE, OP_CREATE, OP_JOIN, OP_YIELD, OP_SLEEP, OP_ONCE,
    OP_GUARD, OP_IO, OP_EVP, OP_USER, OP_PREEMPT, OP_WAITSTEP, OP_WAITQ, OP_COUNT
};

enum TState : int { TS_FREE, TS_RUNNABLE, TS_BLOCKED, TS_SLEEP, TS_WAITSTEP, TS_WAITQ, TS_DONE };

struct VC { uint32_t c[MAXT]; };

struct DtorNode { void (*fn)(void*); void* obj; DtorNode* next; };

struct SimThread {
    int tid;
    TState state;
    int block_op;
    const void* block_obj;
    bool timed;
    uint64_t wake_time;
    uint64_t target_step;
    uint64_t block_seq;
    bool timed_out;
    bool woken;
    void* sp;
    uint64_t fs;
    unsigned long pth;
    char* stack_lo;
    size_t stack_size;
    void* (*fn)(void*);
    void* arg;
    void* ret;
    bool detached, joined;
    DtorNode* dtors;
    VC vc, acq, rel;
    VC final_vc;
    uint64_t prio;
    uint32_t armed;          // fault kinds enabled, bit per kind
    uint32_t depth;
    const void* stk[256];
    int last_op;
};

struct Sync {
    const void* addr;
    Sync* next;
    int owner;
    int count;
    int readers;
    int inprogress;
    VC clk;
    VC rclk;
};

extern HIDDEN SimThread* g_cur;
extern HIDDEN SimThread g_th[MAXT];
extern HIDDEN int g_nth;
extern HIDDEN SimCfg g_cfg;
extern HIDDEN SimResult* g_res;
extern HIDDEN uint64_t g_now, g_step;
extern HIDDEN int g_race;

HIDDEN void rt_sched_point(int op, const void* obj, bool yield = false);
HIDDEN void rt_block(int op, const void* obj, bool timed, uint64_t wake_time);
HIDDEN int rt_wake_all(int op, const void* obj);
HIDDEN void rt_sleep(uint64_t ns);
HIDDEN Sync* rt_sync(const void* addr);
HIDDEN void rt_release(Sync* s);
HIDDEN void rt_acquire(Sync* s);
HIDDEN void rt_range(const void* addr, size_t n, bool write, const void* pc);
HIDDEN bool rt_foreign(const void* ra);
HIDDEN void* rt_alloc(size_t n);
HIDDEN void* rt_real(const char* name);
HIDDEN void rt_mix(uint64_t v);
HIDDEN void rt_fs_init();
HIDDEN void rt_evp_init();
HIDDEN void rt_thread_fn_done();

#define IN_SIM() (g_cur != nullptr)
