// Internal declarations shared by the runtime's translation units.
#pragma once
#include "simrt.h"
#include <cstring>
#include <pthread.h>
#include <sys/types.h>

namespace sim::rt {

constexpr int MAXT = 96;          // simulated threads created in one run
constexpr uint32_t MAX_SCHED = 60000;
constexpr uint32_t MAX_FAULTS = 4096;
constexpr uint32_t MAX_KNOBS = 160;
constexpr uint32_t MAX_DROPS = 2048;
constexpr uint32_t COV_BYTES = 1 << 14;

struct SchedRec {
    uint64_t at; // (point << 1) | type ; type 0 = sync point, 1 = plain access
    uint32_t tid;
};
struct FaultRec {
    uint32_t kind;
    uint32_t param;
    uint64_t idx;
};
struct KnobRec {
    char name[40];
    uint64_t val, lo, hi;
};
struct ProbeRec {
    char name[48];
    uint64_t n;
};

// What to run (input).
struct Plan {
    uint64_t seed;
    bool explicit_trace; // schedule and faults come from the lists, not from the PRNG
    uint32_t nsched, nfaults, nknobs, ndrops;
    SchedRec sched[MAX_SCHED];
    FaultRec faults[MAX_FAULTS];
    KnobRec knobs[MAX_KNOBS];
    uint32_t drops[MAX_DROPS];
};

enum Status { ST_NONE = 0, ST_OK, ST_VIOLATION, ST_DISCARD, ST_ERROR };

// What happened (output, in memory shared with the parent).
struct Shared {
    volatile int status;
    char cls[128];
    char msg[4096];
    uint64_t hash, sched_hash, points, accesses, switches, vtime, spin_loops;
    uint64_t fired[F_COUNT], opp[F_COUNT];
    uint32_t nprobes;
    ProbeRec probes[160];
    bool nontrivial;
    bool sched_overflow;
    uint32_t nops;
    uint32_t threads;
    uint32_t nsched, nfaults, nknobs;
    SchedRec sched[MAX_SCHED];
    FaultRec faults[MAX_FAULTS];
    KnobRec knobs[MAX_KNOBS];
    uint32_t loglen;
    char log[1 << 16];
    uint8_t cov[COV_BYTES];
};

extern Plan* g_plan;
extern Shared* g_sh;

enum TState : uint8_t { T_RUN = 0, T_BLOCK, T_DONE };
enum WKind : uint8_t {
    W_NONE = 0,
    W_MUTEX,
    W_COND,
    W_RW_R,
    W_RW_W,
    W_ONCE,
    W_JOIN,
    W_FUTEX,
    W_SLEEP,
    W_GUARD
};
extern const char* const wkind_names[];

struct VC {
    uint64_t c[MAXT];
};

struct Thread {
    int id;
    volatile int go;
    TState state;
    WKind wkind;
    bool spinning;
    bool finished;
    bool detached, joined;
    uint8_t exit_iter;
    bool woken;
    void* waddr;
    void* waddr2;
    uint64_t deadline;
    int quiet;
    int norace;
    // spin detection
    const volatile void* spin_addr;
    uint64_t spin_val;
    uint32_t spin_cnt;
    int64_t spin_budget;
    uint32_t spin_alone; // rounds of spinning while nobody else can run
    uint64_t rr_stamp;
    // scheduling
    uint64_t prio;
    uint64_t starve_until;
    const volatile void* hold_addr; // held before changing this until another thread does
    int push_to;                    // one more than the thread to give way to
    int push_in;                    // after this many points
    // happens-before
    VC vc;
    VC acq_pending;
    VC rel_fence;
    bool has_acq, has_rel;
    // start
    void* (*fn)(void*);
    void* arg;
    void* ret;
    pthread_t real;
    void* stack;
    int stack_slot;
};

extern __thread Thread* self;
extern Thread g_threads[MAXT];
extern int g_nthreads; // created so far in this run
extern int g_nlive;    // not finished
extern bool g_active;  // a simulated run is in progress
extern bool g_mt;      // more than one live thread: race checking on
extern uint64_t g_vtime;

inline bool sim_on() { return g_active && self != nullptr && !self->finished; }

// scheduling
void point(uint32_t kind, uintptr_t site, bool may_switch = true);
void plain_switch();
extern int64_t g_plain_gap;
extern uint64_t g_acc;
extern uint64_t g_acc_limit;
void block(WKind k, void* addr, uint64_t deadline = ~0ull);
int wake(WKind k, void* addr, int n, bool random);
void reset_spin(Thread* t);
void wrote_atomic(const volatile void* addr);
void about_to_change(const volatile void* addr);
void spin_check(Thread* t, const volatile void* addr, uint64_t val, uintptr_t site);
uint64_t sched_rand();
void hash_event(uint64_t a, uint64_t b);

// happens-before
void hb_acquire(uintptr_t addr);
void hb_release(uintptr_t addr);         // replace (store)
void hb_release_join(uintptr_t addr);    // join (rmw / lock hand over)
void vc_join(VC& a, const VC& b);
void race_access(uintptr_t addr, size_t size, bool write, bool atomic, uintptr_t pc);
void shadow_clear(uintptr_t addr, size_t size);
void heap_check(uintptr_t addr, size_t size, bool write, uintptr_t pc);

constexpr uintptr_t HEAP_BASE = 0x100000000000ull;
constexpr size_t HEAP_PARENT = 2ull << 30;
constexpr size_t HEAP_RUN = 8ull << 30;
constexpr uintptr_t HEAP_RUN_BASE = HEAP_BASE + HEAP_PARENT;
constexpr uintptr_t HEAP_END = HEAP_RUN_BASE + HEAP_RUN;
constexpr uintptr_t HEAP_SHADOW = 0x200000000000ull;
constexpr uintptr_t STACK_BASE = 0x300000000000ull;
constexpr size_t STACK_SIZE = 1 << 20;
void heap_begin_run();
void warm_unwinder();
extern uint8_t g_fill;

// faults
extern bool g_armed;
bool fault(Fault f, uint32_t* param = nullptr, uint32_t param_range = 0);
extern bool g_frozen; // after a simulated crash

uint64_t prng(uint64_t& s);
uintptr_t site_of(void* ra);
extern uintptr_t g_base;
void io_begin_run();
void io_heal();
void* real_sym(const char* name);

long raw_syscall(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0);

} // namespace sim::rt
