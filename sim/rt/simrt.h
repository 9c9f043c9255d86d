// Deterministic simulation runtime: harness-side API.
//
// The runtime implements the ThreadSanitizer instrumentation ABI, the pthread
// primitives, the allocator, the clock, the random device and the file-system calls
// itself.  Only one thread of the simulated process runs at a time; which one is decided
// at every instrumented point by a PRNG seeded from the run's seed.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>

namespace sim {

// ---- fault kinds -----------------------------------------------------------------------
enum Fault : uint32_t {
    F_SPURIOUS_WAKE = 0, // condition variable wait returns without a notification
    F_CAS_WEAK,          // weak compare-exchange fails spuriously
    F_THREAD_CREATE,     // pthread_create returns EAGAIN
    F_ALLOC,             // operator new throws std::bad_alloc
    F_MMAP,              // mmap returns MAP_FAILED
    F_IO_OPEN,           // open for reading or writing fails (EMFILE / EACCES / ENOSPC)
    F_IO_WRITE_SHORT,    // write transfers fewer bytes than asked
    F_IO_WRITE_ERR,      // write fails: ENOSPC (sticky: the disk stays full) or EIO
    F_IO_READ_SHORT,     // read transfers fewer bytes than asked
    F_IO_READ_ERR,       // read fails with EIO
    F_IO_EINTR,          // read or write is interrupted
    F_IO_CLOSE,          // close reports an error
    F_IO_MKDIR,          // mkdir fails
    F_IO_CRASH,          // the process dies: nothing after this reaches the disk
    F_CLOCK_JUMP,        // the wall clock jumps (forwards or backwards)
    F_CLOCK_STALL,       // a thread is descheduled: time passes
    F_STALL,             // a thread is starved of the processor for a while
    F_DIR_SHUFFLE,       // directory entries come back in another order
    F_IO_BITROT,         // harness: stored bytes are altered or cut off
    F_IO_DISK_FULL,      // harness-set disk quota was reached
    F_IO_RENAME,         // rename fails
    F_RANDOM_REPEAT,     // the random device returns a word it has returned before
    F_MMAP_HUGE,         // mmap finds no huge page
    F_CLOCK_COARSE,      // harness: the clocks advance in steps, or not at all
    F_COUNT
};
extern const char* const fault_names[F_COUNT];

// ---- run parameters --------------------------------------------------------------------
// Named workload parameters. The first call with a name draws uniformly from [lo, hi];
// the value is recorded in the trace and can be overridden by it.
uint64_t knob(const char* name, uint64_t lo, uint64_t hi);
inline bool flag(const char* name, unsigned percent) { return knob(name, 0, 99) < percent; }
// Should operation `i` of the generated workload be executed? (false when the minimiser
// dropped it.)
bool keep_op(uint32_t i);
uint32_t ops_seen();
uint64_t seed();

// A small PRNG for data generation, derived from the seed and a name.
struct Rng {
    uint64_t s;
    explicit Rng(const char* name);
    Rng(uint64_t s_)
        : s{s_} {}
    uint64_t next();
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    uint64_t range(uint64_t lo, uint64_t hi) { return lo + below(hi - lo + 1); }
    bool chance(unsigned percent) { return below(100) < percent; }
};

// ---- outcome ---------------------------------------------------------------------------
// Report a violation and end the run. `cls` is a short stable class name.
[[noreturn]] void fail(const char* cls, const char* fmt, ...)
    __attribute__((format(printf, 2, 3)));
#define SIM_CHECK(cond, cls, ...)                \
    do {                                         \
        if (!(cond)) {                           \
            ::sim::fail(cls, __VA_ARGS__);       \
        }                                        \
    } while (0)
// Count that a rare condition was reached.
void probe(const char* name, uint64_t n = 1);
// Add a value to the run's event hash (results of operations, ...).
void note(uint64_t x);
void note_bytes(const void* p, size_t n);
// Human readable line for the replay (operations executed).
void log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
// Skip this run: not a meaningful case.
[[noreturn]] void discard(const char* why);
// The scenario declares that this run did meaningful work.
void nontrivial();

// ---- scheduler -------------------------------------------------------------------------
// While alive, the calling thread is neither preempted nor race-checked (oracle code).
struct Quiet {
    Quiet();
    ~Quiet();
};
// While alive, races are not reported (scheduling continues).
struct NoRace {
    NoRace();
    ~NoRace();
};
void yield();                  // explicit scheduling point
uint64_t now_ns();             // virtual time
uint64_t event_seq();          // global event sequence number (advances on every call)
uint32_t live_threads();       // simulated threads not yet finished (including main)
uint32_t tid();
bool deterministic_order();    // true when the run uses the no-preemption baseline schedule

// ---- faults ----------------------------------------------------------------------------
// Probability in parts per million of a fault at each opportunity while armed.
void fault_rate(Fault f, uint32_t ppm);
// Inject the fault at exactly the nth opportunity from now (0 = next).
void fault_at(Fault f, uint64_t nth, uint32_t param = 0);
void fault_clear();                 // no more faults (rates and pending points)
void arm(bool on);                  // master switch, off at the start of a run
uint64_t opportunities(Fault f);    // opportunities seen so far
uint64_t fired(Fault f);            // how often the fault was injected so far in this run
void count_fault(Fault f);          // a harness-made fault was injected
struct Armed {
    Armed() { arm(true); }
    ~Armed() { arm(false); }
};
// From now on the clocks show multiples of this many nanoseconds (0: every nanosecond).
void clock_step(uint64_t ns);
// Disk: quota in bytes for files written from now on (~0 = unlimited).
void disk_quota(uint64_t bytes);
// Crash model: after the crash point no mutation reaches the disk.
bool crashed();
void disk_revive(); // "restart": later writes are real again

// ---- heap oracle -----------------------------------------------------------------------
uint64_t heap_live_blocks();
uint64_t heap_live_bytes();
uint64_t mmap_live_regions();
bool mapped_huge(const void* p); // does a live mapping made of huge pages begin here?
// Forget the shadow state: used between independent phases.

// The scenario body. Runs as simulated thread 0, in a fresh scratch directory.
struct Scenario {
    const char* name;
    void (*fn)();
    Scenario* next;
    Scenario(const char* n, void (*f)());
};
#define SCENARIO(name)                                       \
    static void scenario_##name();                           \
    static ::sim::Scenario scenario_reg_##name{#name, scenario_##name}; \
    static void scenario_##name()

// First violation raised in library code paths is recorded with this prefix.
} // namespace sim
