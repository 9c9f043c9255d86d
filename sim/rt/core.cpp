// Scheduler, decision streams, faults, happens-before clocks, race detector.
#include "internal.h"
#include <dlfcn.h>
#include <exception>
#include <unwind.h>
#include <new>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <errno.h>
#include <linux/futex.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

namespace sim {
const char* const fault_names[F_COUNT] = {
    "spurious_wakeup", "weak_cas_fail", "thread_create_fail", "alloc_fail",
    "mmap_fail", "open_fail", "short_write", "write_error", "short_read",
    "read_error", "interrupted_call", "close_error", "mkdir_fail", "process_crash",
    "clock_jump", "clock_stall", "thread_stall", "dir_order_shuffle", "stored_bytes_damaged",
    "disk_full", "rename_fail", "random_word_repeated", "no_huge_page",
    "coarse_clock"};
}

namespace sim::rt {

const char* const wkind_names[] = {
    "none", "mutex", "condvar", "rwlock(read)", "rwlock(write)", "once", "join", "futex",
    "sleep", "static-guard"};

Plan* g_plan;
Shared* g_sh;
__thread Thread* self = nullptr;
Thread g_threads[MAXT];
int g_nthreads = 0;
int g_nlive = 0;
bool g_active = false;
bool g_mt = false;
uint64_t g_vtime = 0;
int64_t g_plain_gap = INT64_MAX;
uint64_t g_acc = 0;
uint64_t g_acc_limit = 1000000000ull;
bool g_armed = false;
bool g_frozen = false;
uint8_t g_fill = 0xa5;
uintptr_t g_base = 0;

static uint64_t g_pt = 0; // scheduling points so far
static uint64_t g_pt_limit = 6000000;
static uint64_t g_fair_after = 600000;
static uint64_t g_event = 0;
static uint64_t s_sched, s_fault; // PRNG states

long raw_syscall(long n, long a, long b, long c, long d, long e, long f) {
    long ret;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall"
                     : "=a"(ret)
                     : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                     : "rcx", "r11", "memory");
    return ret;
}

uint64_t prng(uint64_t& s) { // splitmix64
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static uint64_t mix(uint64_t a, uint64_t b) {
    uint64_t s = a ^ (b * 0x9e3779b97f4a7c15ull + 0x7f4a7c15ull);
    return prng(s);
}
static uint64_t hash_str(const char* p) {
    uint64_t h = 1469598103934665603ull;
    for (; *p; ++p) {
        h = (h ^ (uint8_t)*p) * 1099511628211ull;
    }
    return h;
}
uint64_t sched_rand() { return prng(s_sched); }

uintptr_t site_of(void* ra) { return (uintptr_t)ra - g_base; }

void hash_event(uint64_t a, uint64_t b) { g_sh->hash = mix(g_sh->hash ^ a, b); }

[[noreturn]] static void end_run(int status) {
    g_sh->points = g_pt;
    g_sh->accesses = g_acc;
    g_sh->vtime = g_vtime;
    g_sh->threads = g_nthreads;
    g_sh->status = status;
    raw_syscall(SYS_exit_group, status == ST_OK ? 0 : status);
    __builtin_unreachable();
}
[[noreturn]] void end_ok() { end_run(ST_OK); }

static void vfail(const char* cls, const char* fmt, va_list ap) {
    if (g_sh->status != ST_NONE) {
        end_run(g_sh->status);
    }
    snprintf(g_sh->cls, sizeof g_sh->cls, "%s", cls);
    vsnprintf(g_sh->msg, sizeof g_sh->msg, fmt, ap);
}

} // namespace sim::rt

namespace sim {
using namespace rt;

[[noreturn]] void fail(const char* cls, const char* fmt, ...) {
    if (self) {
        self->quiet++;
    }
    va_list ap;
    va_start(ap, fmt);
    vfail(cls, fmt, ap);
    va_end(ap);
    hash_event(0xfa11, hash_str(cls));
    end_run(ST_VIOLATION);
}
[[noreturn]] void discard(const char* why) {
    snprintf(g_sh->msg, sizeof g_sh->msg, "%s", why);
    end_run(ST_DISCARD);
}
} // namespace sim

namespace sim::rt {
[[noreturn]] void internal_error(const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    snprintf(g_sh->cls, sizeof g_sh->cls, "internal");
    vsnprintf(g_sh->msg, sizeof g_sh->msg, fmt, ap);
    va_end(ap);
    end_run(ST_ERROR);
}

// ---------------------------------------------------------------------------------------
// Strategy (drawn per run)
// ---------------------------------------------------------------------------------------
enum Strat { S_BASE, S_RAND, S_PCT, S_SITE };
static Strat g_strat;
static uint32_t g_p_switch;    // per 65536
static uint32_t g_p_other;     // per 65536, S_SITE off-site
static uint64_t g_site_salt;
static uint32_t g_site_mod;
static uint64_t g_pct_points[12];
static int g_pct_n;
static uint64_t g_pct_low;
static uint64_t g_plain_mean;  // mean gap between plain-access preemptions (0 = none)
static uint32_t g_p_starve;    // per 65536: start starving a thread at a point
static uint64_t g_starve_len;
static uint32_t g_hold_mod;    // threads are held up at one in so many sites (0 = none)
static uint64_t g_hold_len;
static uint64_t g_hold_salt;
static uint32_t g_conflict;    // per 65536: hold a thread about to change an atomic
static uint64_t g_conflict_len;
static uint32_t g_idle_rounds; // rounds in which everybody spins on what nobody changes
static bool g_stubborn; // spinning threads spin on while those they wait for are held up

static uint32_t g_sched_cur; // replay cursor

static void draw_plain_gap() {
    if (g_plan->explicit_trace) {
        return;
    }
    if (g_plain_mean == 0) {
        g_plain_gap = INT64_MAX;
        return;
    }
    uint64_t r = prng(s_sched) % (2 * g_plain_mean) + 1;
    g_plain_gap = (int64_t)r;
}

static void explicit_plain_gap();

void begin_run() {
    uint64_t sd = g_plan->seed;
    s_sched = mix(sd, 0x5c4ed);
    s_fault = mix(sd, 0xfa017);
    g_pt = 0;
    g_acc = 0;
    g_vtime = 1700000000ull * 1000000000ull;
    g_event = 0;
    g_sh->hash = mix(sd, 1);
    g_sh->sched_hash = 0x1234;
    uint64_t r = prng(s_sched);
    switch (r % 16) {
        case 0: g_strat = S_BASE; break;
        case 1: case 2: case 3: case 4: case 5: g_strat = S_PCT; break;
        case 6: case 7: case 8: g_strat = S_SITE; break;
        default: g_strat = S_RAND;
    }
    static const uint32_t ps[] = {32768, 16384, 6000, 2000, 600, 200};
    g_p_switch = ps[prng(s_sched) % 6];
    g_site_salt = prng(s_sched);
    g_site_mod = 2 + prng(s_sched) % 6;
    g_p_other = (prng(s_sched) % 2) ? 0 : 300;
    g_pct_n = 1 + prng(s_sched) % 6;
    static const uint64_t horizon[] = {60, 250, 1000, 4000, 20000};
    uint64_t h = horizon[prng(s_sched) % 5];
    for (int i = 0; i < g_pct_n; ++i) {
        g_pct_points[i] = 1 + prng(s_sched) % h;
    }
    g_pct_low = 1000000;
    static const uint64_t gaps[] = {0, 0, 0, 20000, 2000, 200};
    g_plain_mean = gaps[prng(s_sched) % 6];
    if (g_strat == S_BASE) {
        g_plain_mean = 0;
    }
    static const uint32_t pst[] = {0, 0, 0, 30, 150, 1000};
    g_p_starve = pst[prng(s_sched) % 6];
    static const uint64_t sl[] = {50, 500, 5000, 40000};
    g_starve_len = sl[prng(s_sched) % 4];
    static const uint32_t hm[] = {0, 0, 0, 3, 6, 12, 25, 60};
    g_hold_mod = hm[prng(s_sched) % 8];
    static const uint64_t hl[] = {30, 150, 1000, 10000};
    g_hold_len = hl[prng(s_sched) % 4];
    g_hold_salt = prng(s_sched);
    g_stubborn = prng(s_sched) % 4 == 0;
    static const uint32_t pc[] = {0, 0, 0, 500, 3000, 16384};
    g_conflict = pc[prng(s_sched) % 6];
    g_conflict_len = 50u << (2 * (prng(s_sched) % 4));
    static const uint8_t fills[] = {0xa5, 0x00, 0xff, 0x7f, 0x01};
    g_fill = fills[prng(s_sched) % 5];
    g_sched_cur = 0;
    if (g_plan->explicit_trace) {
        explicit_plain_gap();
    } else {
        draw_plain_gap();
    }
    g_armed = false;
    g_frozen = false;
}

static void record_sched(uint64_t at, uint32_t tid) {
    if (g_sh->nsched < MAX_SCHED) {
        g_sh->sched[g_sh->nsched++] = {at, tid};
    } else {
        g_sh->sched_overflow = true;
    }
}

static inline bool eligible(Thread& t) {
    if (t.state == T_RUN) {
        return true;
    }
    if (t.state == T_BLOCK && t.deadline <= g_vtime) {
        return true; // timed wait expired
    }
    return false;
}

static void futex_wait_go(Thread* t) {
    while (__atomic_load_n(&t->go, __ATOMIC_ACQUIRE) == 0) {
        raw_syscall(SYS_futex, (long)&t->go, FUTEX_WAIT_PRIVATE, 0, 0);
    }
    __atomic_store_n(&t->go, 0, __ATOMIC_RELAXED);
}
static void futex_go(Thread* t) {
    __atomic_store_n(&t->go, 1, __ATOMIC_RELEASE);
    raw_syscall(SYS_futex, (long)&t->go, FUTEX_WAKE_PRIVATE, 1);
}


static void note_switch(int from, int to, uintptr_t site) {
    g_sh->switches++;
    g_sh->sched_hash = mix(g_sh->sched_hash ^ ((uint64_t)from << 8 | to), site);
    uint64_t h = mix(site, 77) ^ mix(g_threads[to].spin_cnt > 0, 3) ^
                 mix((uint64_t)g_threads[to].wkind, 5);
    // site at which `to` was last preempted
    h ^= g_threads[to].rr_stamp;
    h = mix(h, 9);
    g_sh->cov[(h >> 3) % COV_BYTES] |= 1u << (h & 7);
}

static void resume(Thread* t) {
    if (t->state == T_BLOCK) { // timed out
        t->state = T_RUN;
        t->woken = false;
    }
}

// Pick the thread to run. `cur` may be null (current cannot continue).
static Thread* pick(Thread* cur, uint32_t kind, uintptr_t site, uint64_t at) {
    // Collect candidates.
    int cand[MAXT];
    int n = 0;
    int nonspin = 0;
    for (;;) {
        n = 0;
        nonspin = 0;
        for (int i = 0; i < g_nthreads; ++i) {
            if (eligible(g_threads[i])) {
                cand[n++] = i;
                if (!g_threads[i].spinning) {
                    nonspin++;
                }
            }
        }
        if (n) {
            break;
        }
        // Nobody can run: let time pass until the next timer.
        uint64_t best = ~0ull;
        for (int i = 0; i < g_nthreads; ++i) {
            if (g_threads[i].state == T_BLOCK && g_threads[i].deadline < best) {
                best = g_threads[i].deadline;
            }
        }
        if (best == ~0ull) {
            char buf[1500];
            int o = 0;
            for (int i = 0; i < g_nthreads && o < 1300; ++i) {
                if (g_threads[i].state == T_BLOCK) {
                    o += snprintf(buf + o, sizeof buf - o, " thread %d waits on %s;", i,
                                  wkind_names[g_threads[i].wkind]);
                }
            }
            fail("deadlock", "no thread can make progress:%s", buf);
        }
        g_vtime = best;
    }
    int every[MAXT], n_every = n;
    memcpy(every, cand, sizeof(int) * n);
    bool all_spin = nonspin == 0;
    if (!all_spin && nonspin < n) {
        // A spinning thread only runs when nothing else can.
        int m = 0;
        for (int i = 0; i < n; ++i) {
            if (!g_threads[cand[i]].spinning) {
                cand[m++] = cand[i];
            }
        }
        n = m;
    }
    // Default choice.
    int def = -1;
    if (cur && !(cur->spinning && n > 1)) {
        for (int i = 0; i < n; ++i) {
            if (cand[i] == cur->id) {
                def = cur->id;
            }
        }
    }
    if (def < 0) {
        // next id after current, cyclic
        int base = cur ? cur->id : -1;
        for (int i = 0; i < n && def < 0; ++i) {
            if (cand[i] > base) {
                def = cand[i];
            }
        }
        if (def < 0) {
            def = cand[0];
        }
    }
    int choice = def;
    if (g_plan->explicit_trace) {
        while (g_sched_cur < g_plan->nsched && g_plan->sched[g_sched_cur].at < at) {
            g_sched_cur++;
        }
        if (g_sched_cur < g_plan->nsched && g_plan->sched[g_sched_cur].at == at) {
            uint32_t want = g_plan->sched[g_sched_cur].tid;
            g_sched_cur++;
            for (int i = 0; i < n_every; ++i) {
                if ((uint32_t)every[i] == want) {
                    choice = want;
                }
            }
        }
    } else {
        // starvation overlay
        if (n > 1 && g_pt < g_fair_after) {
            int m = 0;
            int c2[MAXT];
            for (int i = 0; i < n; ++i) {
                if (g_threads[cand[i]].starve_until <= g_pt) {
                    c2[m++] = cand[i];
                }
            }
            if (m > 0 && m < n) {
                memcpy(cand, c2, sizeof(int) * m);
                n = m;
                bool has = false;
                for (int i = 0; i < n; ++i) {
                    has |= cand[i] == choice;
                }
                if (!has) {
                    choice = cand[prng(s_sched) % n];
                }
            }
        }
        bool stay = false;
        if (g_stubborn && cur && cur->spinning && g_pt < g_fair_after && eligible(*cur)) {
            // Everybody else is held up: a spinning thread spins on.
            stay = true;
            for (int i = 0; i < n; ++i) {
                stay = stay && (cand[i] == cur->id || g_threads[cand[i]].starve_until > g_pt);
            }
            if (stay) {
                choice = cur->id;
            }
        }
        if (n > 1 && !stay) {
            Strat st = g_strat;
            uint32_t p = g_p_switch;
            if (g_pt > g_fair_after) {
                st = S_RAND;
                p = 16384;
            }
            bool forced = !cur || choice != cur->id;
            if (kind == 99) { // plain access preemption, forced
                if (st != S_BASE) {
                    choice = cand[prng(s_sched) % n];
                }
            } else if (st == S_RAND) {
                if (forced || (prng(s_sched) & 0xffff) < p) {
                    choice = cand[prng(s_sched) % n];
                }
            } else if (st == S_SITE) {
                uint32_t pp =
                    (mix(site, g_site_salt) % g_site_mod == 0) ? 32768 : g_p_other;
                if (forced || (prng(s_sched) & 0xffff) < pp) {
                    choice = cand[prng(s_sched) % n];
                }
            } else if (st == S_PCT) {
                int best = cand[0];
                for (int i = 1; i < n; ++i) {
                    if (g_threads[cand[i]].prio > g_threads[best].prio) {
                        best = cand[i];
                    }
                }
                choice = best;
            }
        }
    }
    if (choice != def) {
        record_sched(at, choice);
    }
    return &g_threads[choice];
}

static void switch_to(Thread* next, uintptr_t site) {
    Thread* me = self;
    note_switch(me->id, next->id, site);
    me->rr_stamp = site;
    hash_event(0x5417c4 + next->id, site);
    resume(next);
    futex_go(next);
    futex_wait_go(me);
}

static void check_limits() {
    if (g_pt > g_pt_limit || g_acc > g_acc_limit) {
        fail("no-progress",
             "the run did not finish within %llu scheduling points / %llu memory accesses "
             "although the scheduler became fair after point %llu",
             (unsigned long long)g_pt_limit, (unsigned long long)g_acc_limit,
             (unsigned long long)g_fair_after);
    }
}

void point(uint32_t kind, uintptr_t site, bool may_switch) {
    Thread* t = self;
    g_pt++;
    g_vtime += 15;
    if (kind != 1) { // not a load
        reset_spin(t);
    }
    if (g_pt > g_pt_limit) {
        check_limits();
    }
    if (t->quiet || !may_switch) {
        return;
    }
    if (!g_plan->explicit_trace) {
        if (g_strat == S_PCT) {
            for (int i = 0; i < g_pct_n; ++i) {
                if (g_pct_points[i] == g_pt) {
                    t->prio = --g_pct_low;
                }
            }
        }
        if (g_p_starve && g_nlive > 1 && g_pt < g_fair_after &&
            (prng(s_sched) & 0xffff) < g_p_starve) {
            Thread& v = g_threads[prng(s_sched) % g_nthreads];
            v.starve_until = g_pt + 1 + prng(s_sched) % g_starve_len;
            g_sh->fired[F_STALL]++;
        }
        if (g_hold_mod && g_nlive > 1 && g_pt < g_fair_after && t->starve_until <= g_pt &&
            mix(site, g_hold_salt) % g_hold_mod == 0 && prng(s_sched) % 4 == 0) {
            t->starve_until = g_pt + 1 + g_hold_len / 2 + prng(s_sched) % g_hold_len;
            g_sh->fired[F_STALL]++;
        }
    }
    if (g_nlive <= 1) {
        return;
    }
    if (t->push_to && t->push_in-- == 0) { // the thread that was held sees the change now
        Thread& o = g_threads[t->push_to - 1];
        t->push_to = 0;
        if (!g_plan->explicit_trace && &o != t && eligible(o)) {
            record_sched(g_pt << 1, o.id);
            switch_to(&o, site);
            return;
        }
    }
    Thread* next = pick(t, kind, site, g_pt << 1);
    if (next != t) {
        switch_to(next, site);
    }
}

// The calling thread is about to change an atomic, going by what it has read before: sometimes it
// is held until another thread has changed it.
void about_to_change(const volatile void* addr) {
    if (!g_conflict || g_plan->explicit_trace) {
        return;
    }
    Thread* t = self;
    if (t->quiet || g_nlive <= 1 || g_pt >= g_fair_after || g_strat == S_BASE ||
        (prng(s_sched) & 0xffff) >= g_conflict) {
        return;
    }
    t->starve_until = g_pt + 2 + prng(s_sched) % g_conflict_len;
    t->hold_addr = addr;
    g_sh->fired[F_STALL]++;
}

static void explicit_plain_gap() {
    // Find the next recorded plain-access preemption.
    g_plain_gap = INT64_MAX;
    for (uint32_t i = 0; i < g_plan->nsched; ++i) {
        uint64_t at = g_plan->sched[i].at;
        if ((at & 1) && (at >> 1) > g_acc) {
            g_plain_gap = (int64_t)((at >> 1) - g_acc);
            break;
        }
    }
}

// Called when g_plain_gap reaches zero.
void plain_switch() {
    Thread* t = self;
    if (g_acc > g_acc_limit) {
        check_limits();
    }
    if (g_plan->explicit_trace) {
        explicit_plain_gap();
    } else {
        draw_plain_gap();
    }
    if (t->quiet || g_nlive <= 1) {
        return;
    }
    if (g_plan->explicit_trace) {
        // direct lookup: plain-access records are not ordered with the points
        uint64_t at = (g_acc << 1) | 1;
        for (uint32_t i = 0; i < g_plan->nsched; ++i) {
            if (g_plan->sched[i].at == at) {
                uint32_t want = g_plan->sched[i].tid;
                if (want < (uint32_t)g_nthreads && eligible(g_threads[want]) &&
                    (int)want != t->id) {
                    record_sched(at, want);
                    switch_to(&g_threads[want], 0x99);
                }
                return;
            }
        }
        return;
    }
    if (g_strat == S_BASE || g_pt > g_fair_after) {
        return;
    }
    int cand[MAXT];
    int n = 0;
    for (int i = 0; i < g_nthreads; ++i) {
        if (i != t->id && eligible(g_threads[i]) && !g_threads[i].spinning &&
            g_threads[i].starve_until <= g_pt) {
            cand[n++] = i;
        }
    }
    if (n == 0) {
        return;
    }
    int c = cand[prng(s_sched) % n];
    record_sched((g_acc << 1) | 1, c);
    if (g_strat == S_PCT) {
        t->prio = --g_pct_low;
    }
    switch_to(&g_threads[c], 0x99);
}

void reset_spin(Thread* t) {
    t->spin_addr = nullptr;
    t->spin_cnt = 0;
    t->spinning = false;
    t->spin_budget = 0;
    t->spin_alone = 0;
}

void wrote_atomic(const volatile void* addr) {
    g_idle_rounds = 0;
    for (int i = 0; i < g_nthreads; ++i) {
        Thread& o = g_threads[i];
        if (o.spin_addr == addr) {
            reset_spin(&o);
        }
        if (o.hold_addr == addr && &o != self) {
            o.hold_addr = nullptr;
            if (o.starve_until > g_pt && !g_plan->explicit_trace) {
                o.starve_until = 0;
                self->push_to = i + 1;
                self->push_in = (int)(prng(s_sched) % 4);
            }
        }
    }
}

// A load (or an operation that changed nothing) of `val`.
void spin_check(Thread* t, const volatile void* addr, uint64_t val, uintptr_t site) {
    if (t->spin_addr == addr && t->spin_val == val) {
        if (++t->spin_cnt > 24) {
            t->spinning = true;
            g_sh->spin_loops++;
            // Give the others a chance; if everybody spins, let this one spin on for a
            // while before rotating.
            int others = 0, spinners = 0;
            for (int i = 0; i < g_nthreads; ++i) {
                if (i != t->id && eligible(g_threads[i])) {
                    (g_threads[i].spinning ? spinners : others)++;
                }
            }
            uint64_t timer = ~0ull;
            if (!others) {
                for (int i = 0; i < g_nthreads; ++i) {
                    if (g_threads[i].state == T_BLOCK && g_threads[i].deadline < timer) {
                        timer = g_threads[i].deadline;
                    }
                }
            }
            if (timer != ~0ull && timer > g_vtime) {
                // Nothing but a timer can end the spinning.
                g_vtime = timer;
                others++;
            } else if (!others && !spinners && ++t->spin_alone > 400) {
                fail("no-progress", "thread %d spins and no other thread can run: none will ever "
                     "change what it waits for", t->id);
            } else if (!others) {
                // Threads that spin for a bounded time only get theirs, from a fair scheduler.
                if (++g_idle_rounds == 1000 && g_fair_after > g_pt) {
                    g_fair_after = g_pt;
                }
                if (g_idle_rounds > 6000) {
                    fail("no-progress", "%d threads spin, no other thread can run, and nobody "
                         "changes what they wait for", spinners + 1);
                }
            }
            if (t->quiet) {
                fail("livelock", "spinning inside a quiet section");
            }
            g_pt++;
            g_vtime += 1000;
            if (g_pt > g_pt_limit) {
                check_limits();
            }
            if (g_nlive > 1) {
                Thread* next = pick(t, 1, site, g_pt << 1);
                if (next != t) {
                    switch_to(next, site);
                }
            }
            if (t->spinning) {
                t->spin_budget = others ? 8 : 20000;
            }
        }
    } else {
        g_idle_rounds = 0;
        t->spin_addr = addr;
        t->spin_val = val;
        t->spin_cnt = 0;
        t->spinning = false;
        t->spin_budget = 0;
    }
}

void block(WKind k, void* addr, uint64_t deadline) {
    Thread* t = self;
    reset_spin(t);
    g_idle_rounds = 0;
    if (t->quiet) {
        fail("blocked-in-oracle", "oracle code blocked on %s", wkind_names[k]);
    }
    t->state = T_BLOCK;
    t->wkind = k;
    t->waddr = addr;
    t->woken = false;
    t->deadline = deadline;
    g_pt++;
    g_vtime += 100;
    check_limits();
    Thread* next = pick(nullptr, 2, 0xb10c + k, g_pt << 1);
    if (next == t) { // timer expired at once
        resume(t);
    } else {
        switch_to(next, 0xb10c + k);
    }
    t->wkind = W_NONE;
    t->deadline = ~0ull;
}

int wake(WKind k, void* addr, int n, bool random) {
    int w[MAXT];
    int m = 0;
    for (int i = 0; i < g_nthreads; ++i) {
        Thread& o = g_threads[i];
        if (o.state == T_BLOCK && o.wkind == k && o.waddr == addr) {
            w[m++] = i;
        }
    }
    int done = 0;
    while (m > 0 && done < n) {
        int j = 0;
        if (random && m > 1 && n < m) {
            g_pt++;
            uint64_t at = g_pt << 1;
            if (g_plan->explicit_trace) {
                while (g_sched_cur < g_plan->nsched && g_plan->sched[g_sched_cur].at < at) {
                    g_sched_cur++;
                }
                if (g_sched_cur < g_plan->nsched && g_plan->sched[g_sched_cur].at == at) {
                    j = g_plan->sched[g_sched_cur++].tid % m;
                }
            } else {
                j = prng(s_sched) % m;
            }
            if (j) {
                record_sched(at, j);
            }
        }
        Thread& o = g_threads[w[j]];
        o.state = T_RUN;
        o.woken = true;
        o.deadline = ~0ull;
        w[j] = w[--m];
        done++;
    }
    return done;
}

// ---------------------------------------------------------------------------------------
// Threads
// ---------------------------------------------------------------------------------------
Thread* new_thread() {
    if (g_nthreads >= MAXT) {
        discard("too many threads in one run");
    }
    Thread* t = &g_threads[g_nthreads];
    memset((void*)t, 0, sizeof *t);
    t->id = g_nthreads++;
    t->state = T_RUN;
    t->deadline = ~0ull;
    t->prio = (g_plan->explicit_trace ? 0 : (2000000 + prng(s_sched) % 1000000));
    t->vc.c[t->id] = 1;
    g_nlive++;
    g_mt = g_nlive > 1;
    return t;
}

static pthread_key_t g_key;
static VC g_exit_vc;
static bool g_have_exit;

static void finish_thread() {
    Thread* t = self;
    point(3, 0xe417);
    vc_join(g_exit_vc, t->vc);
    g_have_exit = true;
    t->state = T_DONE;
    g_nlive--;
    if (g_nlive <= 1) {
        // the last one standing has seen everything only through joins; keep checking off
        g_mt = false;
    }
    wake(W_JOIN, t, 1 << 30, false);
    g_pt++;
    Thread* next = pick(nullptr, 2, 0xd1e, g_pt << 1);
    note_switch(t->id, next->id, 0xd1e);
    hash_event(0xd1e + next->id, t->id);
    t->finished = true;
    resume(next);
    futex_go(next);
}

static void key_dtor(void* v) {
    Thread* t = (Thread*)v;
    if (++t->exit_iter < 4) {
        pthread_setspecific(g_key, v);
        return;
    }
    finish_thread();
}

void init_key() { pthread_key_create(&g_key, key_dtor); }

void* thread_main(void* p) {
    Thread* t = (Thread*)p;
    self = t;
    static char alt[MAXT][32768];
    stack_t ss = {};
    ss.ss_sp = alt[t->stack_slot];
    ss.ss_size = sizeof alt[0];
    sigaltstack(&ss, nullptr);
    futex_wait_go(t);
    pthread_setspecific(g_key, t);
    t->ret = t->fn(t->arg);
    // Library code that is not instrumented (promises made ready at thread exit) publishes
    // what this thread did from here on.
    vc_join(g_exit_vc, t->vc);
    g_have_exit = true;
    t->vc.c[t->id]++;
    // The reference counts that order what the exit handlers release live in code that is
    // not instrumented as well.
    t->norace++;
    return t->ret;
}

void start_main_thread() {
    memset(&g_exit_vc, 0, sizeof g_exit_vc);
    g_have_exit = false;
}
void kick(Thread* t) { futex_go(t); }

// ---------------------------------------------------------------------------------------
// Happens-before
// ---------------------------------------------------------------------------------------
struct SyncVar {
    uintptr_t addr;
    VC vc;
};
constexpr uint32_t SV_CAP = 1 << 17;
static SyncVar* g_sv;
static uint32_t* g_svidx; // hash -> index+1
static uint32_t g_nsv;

void hb_init() {
    g_sv = (SyncVar*)mmap(nullptr, sizeof(SyncVar) * (size_t)SV_CAP, PROT_READ | PROT_WRITE,
                          MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    g_svidx = (uint32_t*)mmap(nullptr, 4ull * SV_CAP * 2, PROT_READ | PROT_WRITE,
                              MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}

static SyncVar* sv_find(uintptr_t addr, bool create) {
    uint64_t h = mix(addr, 0x51) & (SV_CAP * 2 - 1);
    while (g_svidx[h]) {
        SyncVar* s = &g_sv[g_svidx[h] - 1];
        if (s->addr == addr) {
            return s;
        }
        h = (h + 1) & (SV_CAP * 2 - 1);
    }
    if (!create) {
        return nullptr;
    }
    if (g_nsv >= SV_CAP) {
        discard("too many synchronisation objects");
    }
    g_svidx[h] = ++g_nsv;
    SyncVar* s = &g_sv[g_nsv - 1];
    s->addr = addr;
    return s;
}

void vc_join(VC& a, const VC& b) {
    for (int i = 0; i < g_nthreads; ++i) {
        if (b.c[i] > a.c[i]) {
            a.c[i] = b.c[i];
        }
    }
}
void hb_acquire(uintptr_t addr) {
    if (g_have_exit) {
        vc_join(self->vc, g_exit_vc);
    }
    SyncVar* s = sv_find(addr, false);
    if (s) {
        vc_join(self->vc, s->vc);
    }
}
void hb_release(uintptr_t addr) {
    SyncVar* s = sv_find(addr, true);
    memcpy(&s->vc, &self->vc, sizeof(uint64_t) * g_nthreads);
    self->vc.c[self->id]++;
}
void hb_release_join(uintptr_t addr) {
    SyncVar* s = sv_find(addr, true);
    vc_join(s->vc, self->vc);
    self->vc.c[self->id]++;
}
void hb_relaxed_store(uintptr_t addr) {
    SyncVar* s = sv_find(addr, false);
    if (self->has_rel) {
        if (!s) {
            s = sv_find(addr, true);
        }
        s->vc = self->rel_fence;
    } else if (s) {
        memset(&s->vc, 0, sizeof s->vc);
    }
}
void hb_relaxed_rmw(uintptr_t addr) {
    if (self->has_rel) {
        SyncVar* s = sv_find(addr, true);
        vc_join(s->vc, self->rel_fence);
    }
}
void hb_relaxed_load(uintptr_t addr) {
    SyncVar* s = sv_find(addr, false);
    if (s) {
        vc_join(self->acq_pending, s->vc);
        self->has_acq = true;
    }
}
void hb_fence(bool acq, bool rel) {
    if (acq && self->has_acq) {
        vc_join(self->vc, self->acq_pending);
    }
    if (rel) {
        self->rel_fence = self->vc;
        self->has_rel = true;
        self->vc.c[self->id]++;
    }
}

// ---------------------------------------------------------------------------------------
// Race detector: four cells per 8-byte word.
// ---------------------------------------------------------------------------------------
struct Cell {
    uint64_t clk;
    uint32_t pc;
    uint8_t tid;
    uint8_t mask;
    uint8_t flags; // 1 write, 2 atomic, 4 used
    uint8_t pad;
};
struct Word {
    Cell c[4];
};
// State of one page of 4096 bytes. Large arrays that one thread fills are kept as one cell.
struct Page {
    Cell u;         // the last access to all of the page, if state == 1
    uint64_t state; // 0: all words are empty, 1: `u` (words are stale), 2: the words
};
constexpr int CH_BITS = 28;
constexpr size_t CH_WORDS = (1ull << CH_BITS) / 8;
constexpr size_t CH_PAGES = (1ull << CH_BITS) / 4096;
struct Chunk {
    Word* w;
    Page* p;
};
static Chunk* g_l1;

void shadow_init() {
    g_l1 = (Chunk*)mmap(nullptr, sizeof(Chunk) << (47 - CH_BITS), PROT_READ | PROT_WRITE,
                        MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}
static uintptr_t g_chunk_next = 0x400000000000ull;
static inline Chunk& chunk(uintptr_t addr) {
    uintptr_t i = addr >> CH_BITS;
    Chunk& c = g_l1[i & ((1ull << (47 - CH_BITS)) - 1)];
    if (__builtin_expect(!c.w, 0)) {
        constexpr size_t bytes = sizeof(Word) * CH_WORDS + sizeof(Page) * CH_PAGES;
        void* p = (void*)raw_syscall(SYS_mmap, g_chunk_next, bytes,
                                     PROT_READ | PROT_WRITE,
                                     MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE |
                                         MAP_FIXED_NOREPLACE,
                                     -1, 0);
        if ((long)p < 0) {
            internal_error("cannot map race shadow");
        }
        g_chunk_next += (bytes + 4095) & ~4095ull;
        c.w = (Word*)p;
        c.p = (Page*)((char*)p + sizeof(Word) * CH_WORDS);
    }
    return c;
}
static inline Word* word_of(Chunk& c, uintptr_t a) {
    return c.w + ((a & ((1ull << CH_BITS) - 1)) >> 3);
}
static inline Page* page_of(Chunk& c, uintptr_t a) {
    return c.p + ((a & ((1ull << CH_BITS) - 1)) >> 12);
}
static __attribute__((noinline)) void materialise(Chunk& c, uintptr_t a) {
    Page* p = page_of(c, a);
    Word* w = word_of(c, a & ~4095ull);
    memset((void*)w, 0, 512 * sizeof(Word));
    if (p->u.flags & 4) {
        for (int i = 0; i < 512; ++i) {
            w[i].c[0] = p->u;
        }
    }
    p->state = 2;
}

static void describe(char* out, size_t n, uintptr_t addr);

[[noreturn]] static void
report_race(uintptr_t addr, size_t size, bool write, bool atomic, uintptr_t pc, Cell& o) {
    char where[200];
    describe(where, sizeof where, addr);
    // Class carries both sites (sorted) so that distinct races are distinct classes.
    fail("data-race",
         "thread %d %s%s %zu bytes at site 0x%llx, not ordered with the earlier %s%s by "
         "thread %d at site 0x%x; location: %s",
         self->id, atomic ? "atomically " : "", write ? "writes" : "reads", size,
         (unsigned long long)(pc), (o.flags & 2) ? "atomic " : "",
         (o.flags & 1) ? "write" : "read", o.tid, o.pc, where);
}

static inline void word_access(Word* w, uint8_t mask, bool write, bool atomic, uintptr_t pc,
                               uintptr_t addr, size_t size) {
    Thread* t = self;
    uint8_t tid = (uint8_t)t->id;
    uint64_t clk = t->vc.c[tid];
    uint8_t fl = 4 | (write ? 1 : 0) | (atomic ? 2 : 0);
    int slot = -1;
    for (int i = 0; i < 4; ++i) {
        Cell& c = w->c[i];
        if (!(c.flags & 4)) {
            if (slot < 0) {
                slot = i;
            }
            continue;
        }
        if (c.tid == tid) {
            if (c.mask == mask && (c.flags & 2) == (fl & 2)) {
                if (c.clk == clk && (c.flags & 1) >= (write ? 1 : 0)) {
                    return; // already recorded, at least as strong
                }
                if (write || !(c.flags & 1)) {
                    slot = i; // replace
                }
            } else if ((c.mask & mask) == c.mask && write && !atomic) {
                slot = i;
            }
            continue;
        }
        if (!(c.mask & mask)) {
            continue;
        }
        if (!((c.flags & 1) || write)) {
            continue;
        }
        if ((c.flags & 2) && atomic) {
            continue;
        }
        if (c.clk <= t->vc.c[c.tid]) {
            // ordered; a dominated cell may be replaced
            if (write && !atomic && (c.mask & mask) == c.mask) {
                slot = i;
            }
            continue;
        }
        if (t->norace) {
            continue;
        }
        report_race(addr, size, write, atomic, pc, c);
    }
    if (slot < 0) {
        slot = (int)((g_acc + (addr >> 3)) & 3);
    }
    w->c[slot] = Cell{clk, (uint32_t)pc, tid, mask, fl, 0};
}

// A plain write of a whole page.
static void
page_write(Chunk& ch, Page* pg, uintptr_t a, uintptr_t pc, uintptr_t addr, size_t size) {
    Thread* t = self;
    if (pg->state == 1) {
        Cell& c = pg->u;
        if ((c.flags & 4) && c.tid != t->id && c.clk > t->vc.c[c.tid]) {
            if (t->norace) {
                return;
            }
            report_race(addr, size, true, false, pc, c);
        }
    } else if (pg->state == 2) {
        Word* w = word_of(ch, a);
        for (int i = 0; i < 512; ++i) {
            word_access(w + i, 0xff, true, false, pc, addr, size);
        }
        if (t->norace) {
            return;
        }
    }
    pg->u = Cell{t->vc.c[t->id], (uint32_t)pc, (uint8_t)t->id, 0xff, 5, 0};
    pg->state = 1;
}

void race_access(uintptr_t addr, size_t size, bool write, bool atomic, uintptr_t pc) {
    uintptr_t a = addr;
    uintptr_t end = addr + size;
    while (a < end) {
        uintptr_t wbeg = a & ~7ull;
        uintptr_t wend = wbeg + 8;
        unsigned lo = (unsigned)(a - wbeg);
        unsigned hi = (unsigned)((end < wend ? end : wend) - wbeg);
        uint8_t mask = (uint8_t)(((1u << (hi - lo)) - 1) << lo);
        Chunk& ch = chunk(wbeg);
        Page* pg = page_of(ch, wbeg);
        if (__builtin_expect(end - a >= 4096 && !(a & 4095) && write && !atomic, 0)) {
            page_write(ch, pg, a, pc, addr, size);
            a += 4096;
            continue;
        }
        if (__builtin_expect(pg->state != 2, 0)) {
            if (pg->state == 0) {
                pg->state = 2;
            } else {
                Thread* t = self;
                if (pg->u.tid == t->id && pg->u.clk == t->vc.c[t->id] && (pg->u.flags & 4) &&
                    !atomic) {
                    a = wend;
                    continue; // covered by this thread's own fill
                }
                materialise(ch, wbeg);
            }
        }
        word_access(word_of(ch, wbeg), mask, write, atomic, pc, addr, size);
        a = wend;
    }
}

void shadow_clear(uintptr_t addr, size_t size) {
    uintptr_t a = addr & ~7ull;
    uintptr_t end = addr + size;
    while (a < end) {
        uintptr_t ce = (a | 4095) + 1;
        uintptr_t e = end < ce ? end : ce;
        Chunk& c = g_l1[a >> CH_BITS];
        if (c.w) {
            Page* pg = page_of(c, a);
            bool whole = e - a == 4096;
            if (pg->state == 1) {
                if (whole) {
                    pg->u.flags = 0;
                } else {
                    materialise(c, a);
                }
            }
            if (pg->state == 2) {
                memset((void*)word_of(c, a), 0, ((e - a) + 7) / 8 * sizeof(Word));
                if (whole) {
                    pg->state = 0;
                }
            }
        }
        a = e;
    }
}

void heap_describe(char* out, size_t n, uintptr_t addr);
static void describe(char* out, size_t n, uintptr_t addr) {
    if (addr >= HEAP_BASE && addr < HEAP_END) {
        heap_describe(out, n, addr);
    } else if (addr >= STACK_BASE && addr < STACK_BASE + STACK_SIZE * (size_t)MAXT) {
        snprintf(out, n, "stack of the thread in slot %d",
                 (int)((addr - STACK_BASE) / STACK_SIZE));
    } else if (addr >= g_base && addr < g_base + (512ull << 20)) {
        snprintf(out, n, "global at offset 0x%llx", (unsigned long long)(addr - g_base));
    } else {
        snprintf(out, n, "mapped region");
    }
}

// ---------------------------------------------------------------------------------------
// Faults
// ---------------------------------------------------------------------------------------
static uint32_t g_rate[F_COUNT];
static uint64_t g_at[F_COUNT];
static uint32_t g_at_param[F_COUNT];
static bool g_has_at[F_COUNT];

// Code that is not the library's may be unable to report a lack of memory: the system's shared
// libraries (directory listing) and the configuration parser end the process.  Requests made by
// them on behalf of the library are not refused.
struct Walk {
    int frames = 0;
    bool library = false, other = false;
};
static _Unwind_Reason_Code walk_frame(_Unwind_Context* c, void* arg) {
    auto& w = *(Walk*)arg;
    static void* exe;
    if (!exe) {
        Dl_info me;
        dladdr((void*)&walk_frame, &me);
        exe = me.dli_fbase;
    }
    uintptr_t pc = _Unwind_GetIP(c);
    Dl_info i;
    if (++w.frames > 200 || !pc || !dladdr((void*)(pc - 1), &i)) {
        return _URC_END_OF_STACK;
    }
    if (i.dli_fbase != exe) {
        if (!w.library) {
            w.other = true;
            return _URC_END_OF_STACK;
        }
    } else if (const char* n = i.dli_sname) {
        if (!strncmp(n, "_ZN", 3)) {
            n += 3;
            n += *n == 'K';
            n += *n == 'R' || *n == 'O';
            if (!strncmp(n, "4toml", 5)) {
                w.other = true;
                return _URC_END_OF_STACK;
            }
            if (!strncmp(n, "3svs", 4) || !strncmp(n, "4svsx", 5)) {
                w.library = true;
            }
        }
    }
    return _URC_NO_REASON;
}
static bool alloc_may_fail() {
    Walk w;
    auto* me = self;
    self = nullptr; // what the walk does is not part of the execution
    _Unwind_Backtrace(walk_frame, &w);
    self = me;
    return !w.other;
}

// What the unwinder does only the first time happens before any run.
void warm_unwinder() {
    alloc_may_fail();
    try {
        throw std::bad_alloc();
    } catch (const std::bad_alloc&) {
        auto e = std::current_exception();
        e = nullptr;
    }
}

bool fault(Fault f, uint32_t* param, uint32_t range) {
    if (!g_armed || (self && self->quiet)) {
        return false;
    }
    uint64_t idx = g_sh->opp[f]++;
    bool hit = false;
    uint32_t p = 0;
    if (g_plan->explicit_trace) {
        // Only where the scenario allows this kind of fault (it may have cleared them since).
        for (uint32_t i = 0; (g_rate[f] || g_has_at[f]) && i < g_plan->nfaults; ++i) {
            if (g_plan->faults[i].kind == f && g_plan->faults[i].idx == idx) {
                hit = true;
                p = g_plan->faults[i].param;
            }
        }
    } else {
        if (g_has_at[f] && g_at[f] == idx) {
            hit = true;
            p = g_at_param[f];
            g_has_at[f] = false;
        } else if (g_rate[f] && prng(s_fault) % 1000000 < g_rate[f]) {
            hit = true;
            p = (uint32_t)(prng(s_fault) & 0x7fffffff);
        }
    }
    if (!hit) {
        return false;
    }
    if (f == F_ALLOC && !g_plan->explicit_trace && !alloc_may_fail()) {
        if (!g_rate[f]) { // the next one instead
            g_has_at[f] = true;
            g_at[f] = idx + 1;
        }
        return false;
    }
    if (range) {
        p %= range;
    }
    g_sh->fired[f]++;
    if (g_sh->nfaults < MAX_FAULTS) {
        g_sh->faults[g_sh->nfaults++] = {f, p, idx};
    }
    hash_event(0xfa00 + f, idx * 1315423911u + p);
    if (param) {
        *param = p;
    }
    return true;
}

} // namespace sim::rt

namespace sim {
using namespace rt;

void fault_rate(Fault f, uint32_t ppm) { g_rate[f] = ppm; }
void fault_at(Fault f, uint64_t nth, uint32_t param) {
    g_has_at[f] = true;
    g_at[f] = g_sh->opp[f] + nth;
    g_at_param[f] = param;
}
void fault_clear() {
    memset(g_rate, 0, sizeof g_rate);
    memset(g_has_at, 0, sizeof g_has_at);
    rt::io_heal();
}
void arm(bool on) { g_armed = on; }
uint64_t opportunities(Fault f) { return g_sh->opp[f]; }
uint64_t fired(Fault f) { return g_sh->fired[f]; }
void count_fault(Fault f) {
    g_sh->opp[f]++;
    g_sh->fired[f]++;
}

uint64_t seed() { return g_plan->seed; }

uint64_t knob(const char* name, uint64_t lo, uint64_t hi) {
    for (uint32_t i = 0; i < g_sh->nknobs; ++i) {
        if (!strcmp(g_sh->knobs[i].name, name)) {
            return g_sh->knobs[i].val;
        }
    }
    uint64_t s = mix(g_plan->seed, hash_str(name));
    uint64_t v = lo + prng(s) % (hi - lo + 1);
    for (uint32_t i = 0; i < g_plan->nknobs; ++i) {
        if (!strcmp(g_plan->knobs[i].name, name)) {
            v = g_plan->knobs[i].val;
            if (v < lo) {
                v = lo;
            }
            if (v > hi) {
                v = hi;
            }
        }
    }
    if (g_sh->nknobs < MAX_KNOBS) {
        KnobRec& k = g_sh->knobs[g_sh->nknobs++];
        snprintf(k.name, sizeof k.name, "%s", name);
        k.val = v;
        k.lo = lo;
        k.hi = hi;
    } else {
        internal_error("too many knobs");
    }
    hash_event(hash_str(name), v);
    return v;
}

bool keep_op(uint32_t i) {
    if (i + 1 > g_sh->nops) {
        g_sh->nops = i + 1;
    }
    for (uint32_t k = 0; k < g_plan->ndrops; ++k) {
        if (g_plan->drops[k] == i) {
            return false;
        }
    }
    return true;
}

Rng::Rng(const char* name)
    : s{mix(g_plan->seed, hash_str(name) ^ 0xdada)} {}
uint64_t Rng::next() { return prng(s); }

void probe(const char* name, uint64_t n) {
    for (uint32_t i = 0; i < g_sh->nprobes; ++i) {
        if (!strcmp(g_sh->probes[i].name, name)) {
            g_sh->probes[i].n += n;
            return;
        }
    }
    if (g_sh->nprobes < 160) {
        ProbeRec& p = g_sh->probes[g_sh->nprobes++];
        snprintf(p.name, sizeof p.name, "%s", name);
        p.n = n;
    }
}
void note(uint64_t x) { hash_event(0x407e, x); }
void note_bytes(const void* p, size_t n) {
    uint64_t h = 1469598103934665603ull;
    for (size_t i = 0; i < n; ++i) {
        h = (h ^ ((const uint8_t*)p)[i]) * 1099511628211ull;
    }
    note(h);
}
void log(const char* fmt, ...) {
    if (g_sh->loglen + 512 > sizeof g_sh->log) {
        return;
    }
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(g_sh->log + g_sh->loglen, 500, fmt, ap);
    va_end(ap);
    if (n > 499) {
        n = 499;
    }
    g_sh->loglen += n;
    g_sh->log[g_sh->loglen++] = '\n';
    g_sh->log[g_sh->loglen] = 0;
}
void nontrivial() { g_sh->nontrivial = true; }

Quiet::Quiet() {
    if (self) {
        self->quiet++;
    }
}
Quiet::~Quiet() {
    if (self) {
        self->quiet--;
    }
}
NoRace::NoRace() {
    if (self) {
        self->norace++;
    }
}
NoRace::~NoRace() {
    if (self) {
        self->norace--;
    }
}
void yield() {
    if (sim_on()) {
        point(4, 0x71e1d);
    }
}
uint64_t now_ns() { return g_vtime; }
uint64_t event_seq() {
    if (sim_on()) {
        hash_event(0xe5e9, self->id);
    }
    return ++g_event;
}
uint32_t live_threads() { return g_nlive; }
uint32_t tid() { return self ? self->id : 0; }
bool deterministic_order() { return g_strat == S_BASE && !g_plan->explicit_trace; }
bool crashed() { return g_frozen; }
} // namespace sim
