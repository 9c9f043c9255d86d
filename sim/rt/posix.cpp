// Threads, locks, condition variables, time, randomness and memory mappings.
#include "internal.h"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <sched.h>
#include <string>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <exception>

namespace sim::rt {
Thread* new_thread();
void* thread_main(void* p);
void kick(Thread* t);
[[noreturn]] void internal_error(const char* fmt, ...);

#define RA() ((uintptr_t)__builtin_return_address(0) - 1)

void* real_sym(const char* name) {
    void* p = dlsym(RTLD_NEXT, name);
    if (!p) {
        raw_syscall(SYS_write, 2, (long)name, strlen(name));
        raw_syscall(SYS_write, 2, (long)": symbol not found\n", 19);
        raw_syscall(SYS_exit_group, 3);
    }
    return p;
}
#define REAL(ret, name, ...)                       \
    static ret (*real_##name)(__VA_ARGS__) = nullptr; \
    if (!real_##name) {                            \
        real_##name = (ret(*)(__VA_ARGS__))real_sym(#name); \
    }

static bool g_slot_used[MAXT];
static bool g_slot_mapped[MAXT];

void* stack_for(int& slot) {
    slot = -1;
    for (int i = 0; i < MAXT; ++i) {
        if (!g_slot_used[i]) {
            slot = i;
            break;
        }
    }
    if (slot < 0) {
        internal_error("no stack slot");
    }
    g_slot_used[slot] = true;
    uintptr_t a = STACK_BASE + STACK_SIZE * (size_t)slot;
    if (!g_slot_mapped[slot]) {
        long p = raw_syscall(SYS_mmap, a, STACK_SIZE, PROT_READ | PROT_WRITE,
                             MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1,
                             0);
        if (p < 0) {
            internal_error("cannot map stack");
        }
        g_slot_mapped[slot] = true;
        // guard page at the low end
        raw_syscall(SYS_mprotect, a, 4096, PROT_NONE);
    } else {
        shadow_clear(a, STACK_SIZE);
    }
    return (void*)(a + 4096);
}

int real_pthread_create_(pthread_t* t, void* stack, void* (*fn)(void*), void* arg) {
    REAL(int, pthread_create, pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstack(&at, stack, STACK_SIZE - 4096);
    int rc = real_pthread_create(t, &at, fn, arg);
    pthread_attr_destroy(&at);
    return rc;
}
int real_pthread_join_(pthread_t t) {
    REAL(int, pthread_join, pthread_t, void**);
    return real_pthread_join(t, nullptr);
}

static uint64_t s_rand;
static int64_t g_wall_off;
static uint64_t g_clock_step;
static uintptr_t g_mmap_next = 0x600000000000ull;
struct Region {
    uintptr_t a;
    size_t n;
    bool huge;
};
static Region g_regions[4096];
static uint32_t g_nregions;
// Address ranges given back, taken again by later mappings in some of the runs.
static Region g_freed[256];
static uint32_t g_nfreed;
static bool g_reuse;

void posix_begin_run() {
    s_rand = g_plan->seed ^ 0x4a4d0ull;
    g_wall_off = 0;
    g_clock_step = 0;
    uint64_t s = g_plan->seed ^ 0x3a93ull;
    g_reuse = prng(s) % 4 != 0;
}

static inline bool live() { return sim_on(); }

// ---- mutex state inside the object -------------------------------------------------
struct M {
    int lock;
    unsigned count;
    int owner;
    unsigned nusers;
    int kind;
};
static inline M* M_(pthread_mutex_t* m) { return (M*)m; }

static void mutex_lock(pthread_mutex_t* m, uintptr_t site) {
    M* s = M_(m);
    point(3, site);
    for (;;) {
        if (s->lock == 0) {
            s->lock = 1;
            s->owner = self->id + 1;
            s->count = 1;
            break;
        }
        if (s->owner == self->id + 1 && (s->kind & 3) == PTHREAD_MUTEX_RECURSIVE) {
            s->count++;
            break;
        }
        block(W_MUTEX, m);
    }
    hb_acquire((uintptr_t)m);
}
static bool mutex_try(pthread_mutex_t* m, uintptr_t site) {
    M* s = M_(m);
    point(1, site);
    if (s->lock == 0) {
        s->lock = 1;
        s->owner = self->id + 1;
        s->count = 1;
        reset_spin(self);
        hb_acquire((uintptr_t)m);
        return true;
    }
    if (s->owner == self->id + 1 && (s->kind & 3) == PTHREAD_MUTEX_RECURSIVE) {
        s->count++;
        return true;
    }
    spin_check(self, &s->lock, (uint64_t)s->owner, site);
    return false;
}
static void mutex_unlock(pthread_mutex_t* m, uintptr_t site, bool pt = true) {
    M* s = M_(m);
    if (s->lock == 0 || s->owner != self->id + 1) {
        fail("mutex-misuse", "unlock of a mutex that the thread does not hold");
    }
    if (--s->count) {
        return;
    }
    hb_release_join((uintptr_t)m);
    s->lock = 0;
    s->owner = 0;
    wrote_atomic(&s->lock);
    wake(W_MUTEX, m, 1 << 30, false);
    if (pt) {
        point(3, site);
    }
}

static uint64_t to_ns(const struct timespec* ts) {
    return (uint64_t)ts->tv_sec * 1000000000ull + (uint64_t)ts->tv_nsec;
}

static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, uint64_t deadline, uintptr_t site) {
    M* s = M_(m);
    point(3, site);
    if (s->lock == 0 || s->owner != self->id + 1) {
        fail("mutex-misuse", "wait on a condition variable without holding the mutex");
    }
    uint64_t dl = deadline;
    uint32_t p = 0;
    bool spur = fault(F_SPURIOUS_WAKE, &p, 20000);
    if (spur) {
        uint64_t d = g_vtime + p;
        if (d < dl) {
            dl = d;
        } else {
            spur = false;
        }
    }
    unsigned cnt = s->count;
    s->count = 1;
    mutex_unlock(m, site, false);
    block(W_COND, c, dl);
    bool woken = self->woken;
    // reacquire
    while (s->lock) {
        block(W_MUTEX, m);
    }
    s->lock = 1;
    s->owner = self->id + 1;
    s->count = cnt;
    hb_acquire((uintptr_t)m);
    if (!woken && !spur && deadline != ~0ull) {
        return ETIMEDOUT;
    }
    return 0;
}

// rwlock state inside the object
struct RW {
    int readers;
    int writer; // tid + 1
};
} // namespace sim::rt

using namespace sim;
using namespace sim::rt;

namespace sim {
uint64_t mmap_live_regions() { return g_nregions; }
void clock_step(uint64_t ns) {
    g_clock_step = ns;
    if (ns) {
        count_fault(F_CLOCK_COARSE);
    }
}
bool mapped_huge(const void* p) {
    for (uint32_t i = 0; i < g_nregions; ++i) {
        if (g_regions[i].a == (uintptr_t)p) {
            return g_regions[i].huge;
        }
    }
    return false;
}
} // namespace sim

extern "C" {

int pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
    if (!live()) {
        REAL(int, pthread_create, pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
        return real_pthread_create(out, attr, fn, arg);
    }
    point(3, RA() - g_base);
    if (fault(F_THREAD_CREATE)) {
        return EAGAIN;
    }
    Thread* t = new_thread();
    t->fn = fn;
    t->arg = arg;
    t->stack = stack_for(t->stack_slot);
    vc_join(t->vc, self->vc);
    t->vc.c[t->id] = 1;
    self->vc.c[self->id]++;
    t->rr_stamp = 0x57a7;
    if (attr) {
        int d = 0;
        pthread_attr_getdetachstate(attr, &d);
        t->detached = d == PTHREAD_CREATE_DETACHED;
    }
    int rc = real_pthread_create_(&t->real, t->stack, thread_main, t);
    if (rc) {
        internal_error("pthread_create failed: %d", rc);
    }
    *out = t->real;
    point(3, RA() - g_base);
    return 0;
}

static Thread* find_thread(pthread_t p) {
    for (int i = g_nthreads - 1; i >= 0; --i) {
        if (g_threads[i].real == p && !g_threads[i].joined) {
            return &g_threads[i];
        }
    }
    return nullptr;
}

int pthread_join(pthread_t p, void** ret) {
    if (!live()) {
        REAL(int, pthread_join, pthread_t, void**);
        return real_pthread_join(p, ret);
    }
    Thread* t = find_thread(p);
    if (!t) {
        return ESRCH;
    }
    point(3, RA() - g_base);
    while (t->state != T_DONE) {
        block(W_JOIN, t);
    }
    t->joined = true;
    vc_join(self->vc, t->vc);
    real_pthread_join_(t->real);
    g_slot_used[t->stack_slot] = false;
    if (ret) {
        *ret = t->ret;
    }
    return 0;
}
int pthread_detach(pthread_t p) {
    if (!live()) {
        REAL(int, pthread_detach, pthread_t);
        return real_pthread_detach(p);
    }
    Thread* t = find_thread(p);
    if (!t) {
        return ESRCH;
    }
    t->detached = true;
    return 0;
}

int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
    memset((void*)m, 0, sizeof *m);
    int k = 0;
    if (a) {
        pthread_mutexattr_gettype(a, &k);
    }
    M_(m)->kind = k;
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
    if (live()) {
        if (M_(m)->lock) {
            sim::fail("mutex-misuse", "a locked mutex is destroyed");
        }
    }
    return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) {
    if (live()) {
        mutex_lock(m, RA() - g_base);
    }
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    if (live()) {
        return mutex_try(m, RA() - g_base) ? 0 : EBUSY;
    }
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (live()) {
        mutex_unlock(m, RA() - g_base);
    }
    return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) {
    if (!live()) {
        return 0;
    }
    uint64_t dl = to_ns(ts);
    point(3, RA() - g_base);
    M* s = M_(m);
    while (s->lock) {
        if (g_vtime >= dl) {
            return ETIMEDOUT;
        }
        block(W_MUTEX, m, dl);
    }
    s->lock = 1;
    s->owner = self->id + 1;
    s->count = 1;
    hb_acquire((uintptr_t)m);
    return 0;
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec* ts) {
    return pthread_mutex_timedlock(m, ts);
}

int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) {
    memset((void*)c, 0, sizeof *c);
    return 0;
}
int pthread_cond_destroy(pthread_cond_t* c) {
    if (live()) {
        for (int i = 0; i < g_nthreads; ++i) {
            if (g_threads[i].state == T_BLOCK && g_threads[i].wkind == W_COND &&
                g_threads[i].waddr == c) {
                sim::fail("condvar-destroyed",
                          "a condition variable is destroyed while thread %d waits on it", i);
            }
        }
    }
    return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if (!live()) {
        return 0;
    }
    return cond_wait(c, m, ~0ull, RA() - g_base);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
    if (!live()) {
        return ETIMEDOUT;
    }
    return cond_wait(c, m, to_ns(ts), RA() - g_base);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t,
                           const struct timespec* ts) {
    if (!live()) {
        return ETIMEDOUT;
    }
    return cond_wait(c, m, to_ns(ts), RA() - g_base);
}
int pthread_cond_signal(pthread_cond_t* c) {
    if (live()) {
        point(3, RA() - g_base);
        wake(W_COND, c, 1, true);
    }
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    if (live()) {
        point(3, RA() - g_base);
        wake(W_COND, c, 1 << 30, false);
    }
    return 0;
}

int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) {
    memset((void*)l, 0, sizeof *l);
    return 0;
}
int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* l) {
    if (!live()) {
        return 0;
    }
    RW* s = (RW*)l;
    point(3, RA() - g_base);
    while (s->writer) {
        block(W_RW_R, l);
    }
    s->readers++;
    hb_acquire((uintptr_t)l);
    return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) {
    if (!live()) {
        return 0;
    }
    RW* s = (RW*)l;
    point(1, RA() - g_base);
    if (s->writer) {
        spin_check(self, l, s->writer, RA() - g_base);
        return EBUSY;
    }
    reset_spin(self);
    s->readers++;
    hb_acquire((uintptr_t)l);
    return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l) {
    if (!live()) {
        return 0;
    }
    RW* s = (RW*)l;
    point(3, RA() - g_base);
    while (s->writer || s->readers) {
        block(W_RW_W, l);
    }
    s->writer = self->id + 1;
    hb_acquire((uintptr_t)l);
    hb_acquire((uintptr_t)l + 1);
    return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) {
    if (!live()) {
        return 0;
    }
    RW* s = (RW*)l;
    point(1, RA() - g_base);
    if (s->writer || s->readers) {
        spin_check(self, l, s->writer + s->readers, RA() - g_base);
        return EBUSY;
    }
    reset_spin(self);
    s->writer = self->id + 1;
    hb_acquire((uintptr_t)l);
    hb_acquire((uintptr_t)l + 1);
    return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
    if (!live()) {
        return 0;
    }
    RW* s = (RW*)l;
    if (s->writer) {
        if (s->writer != self->id + 1) {
            sim::fail("mutex-misuse", "unlock of a lock that another thread holds exclusively");
        }
        s->writer = 0;
        hb_release_join((uintptr_t)l);
    } else {
        if (s->readers <= 0) {
            sim::fail("mutex-misuse", "unlock of a reader/writer lock that nobody holds");
        }
        s->readers--;
        hb_release_join((uintptr_t)l + 1); // readers order writers, not each other
    }
    wrote_atomic(l);
    wake(W_RW_R, l, 1 << 30, false);
    wake(W_RW_W, l, 1 << 30, false);
    point(3, RA() - g_base);
    return 0;
}

int pthread_once(pthread_once_t* o, void (*fn)()) {
    if (!live()) {
        if (*o != 2) {
            *o = 2;
            fn();
        }
        return 0;
    }
    point(3, RA() - g_base);
    while (*o == 1) {
        block(W_ONCE, o);
    }
    if (*o == 2) {
        hb_acquire((uintptr_t)o);
        return 0;
    }
    *o = 1;
    hb_acquire((uintptr_t)o);
    try {
        fn();
    } catch (...) {
        *o = 0;
        hb_release_join((uintptr_t)o);
        wake(W_ONCE, o, 1 << 30, false);
        throw;
    }
    *o = 2;
    hb_release_join((uintptr_t)o);
    wake(W_ONCE, o, 1 << 30, false);
    return 0;
}

int __cxa_guard_acquire(uint64_t* g) {
    uint8_t* b = (uint8_t*)g;
    if (!live()) {
        if (b[0]) {
            return 0;
        }
        return 1;
    }
    point(3, RA() - g_base);
    while (b[1]) {
        block(W_GUARD, g);
    }
    hb_acquire((uintptr_t)g);
    if (b[0]) {
        return 0;
    }
    b[1] = 1;
    return 1;
}
void __cxa_guard_release(uint64_t* g) {
    uint8_t* b = (uint8_t*)g;
    b[0] = 1;
    b[1] = 0;
    if (live()) {
        hb_release_join((uintptr_t)g);
        wake(W_GUARD, g, 1 << 30, false);
        point(3, RA() - g_base);
    }
}
void __cxa_guard_abort(uint64_t* g) {
    uint8_t* b = (uint8_t*)g;
    b[1] = 0;
    if (live()) {
        hb_release_join((uintptr_t)g);
        wake(W_GUARD, g, 1 << 30, false);
    }
}

long syscall(long n, ...) {
    va_list ap;
    va_start(ap, n);
    long a[6];
    for (int i = 0; i < 6; ++i) {
        a[i] = va_arg(ap, long);
    }
    va_end(ap);
    if (live()) {
        if (n == SYS_futex) {
            int op = (int)a[1] & 0x7f & ~FUTEX_CLOCK_REALTIME;
            int* addr = (int*)a[0];
            if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
                point(3, RA() - g_base);
                if (*addr != (int)a[2]) {
                    errno = EAGAIN;
                    return -1;
                }
                uint64_t dl = ~0ull;
                if (a[3]) {
                    dl = to_ns((struct timespec*)a[3]);
                    if (op == FUTEX_WAIT) {
                        dl += g_vtime;
                    }
                }
                block(W_FUTEX, addr, dl);
                if (!self->woken && dl != ~0ull) {
                    errno = ETIMEDOUT;
                    return -1;
                }
                hb_acquire((uintptr_t)addr);
                return 0;
            }
            if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
                point(3, RA() - g_base);
                hb_release_join((uintptr_t)addr);
                return wake(W_FUTEX, addr, (int)a[2], true);
            }
            errno = ENOSYS;
            return -1;
        }
        if (n == SYS_gettid) {
            return 1000 + self->id;
        }
    }
    long r = raw_syscall(n, a[0], a[1], a[2], a[3], a[4], a[5]);
    if (r < 0 && r > -4096) {
        errno = (int)-r;
        return -1;
    }
    return r;
}

int sched_yield() {
    if (live()) {
        point(4, RA() - g_base);
    }
    return 0;
}
static int do_sleep(uint64_t ns) {
    block(W_SLEEP, self, g_vtime + ns);
    return 0;
}
int nanosleep(const struct timespec* ts, struct timespec*) {
    if (live()) {
        return do_sleep(to_ns(ts));
    }
    return 0;
}
int clock_nanosleep(clockid_t, int flags, const struct timespec* ts, struct timespec*) {
    if (live()) {
        uint64_t t = to_ns(ts);
        if (flags & TIMER_ABSTIME) {
            t = t > g_vtime ? t - g_vtime : 0;
        }
        return do_sleep(t);
    }
    return 0;
}
int usleep(useconds_t us) {
    if (live()) {
        return do_sleep((uint64_t)us * 1000);
    }
    return 0;
}
int clock_gettime(clockid_t c, struct timespec* ts) {
    if (!live()) {
        long r = raw_syscall(SYS_clock_gettime, c, (long)ts);
        return r < 0 ? -1 : 0;
    }
    point(4, RA() - g_base);
    uint32_t p;
    static const uint64_t stalls[] = {1000, 100000, 10000000, 1000000000ull, 60000000000ull,
                                      0, 1, 86400000000000ull};
    if (fault(F_CLOCK_STALL, &p, 8)) {
        g_vtime += stalls[p];
    }
    g_vtime += 40;
    uint64_t t = g_vtime;
    if (g_clock_step) {
        t -= t % g_clock_step;
    }
    if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) {
        if (fault(F_CLOCK_JUMP, &p, 6)) {
            static const int64_t jumps[] = {-3600000000000ll, -1000000, 3600000000000ll,
                                            -1000000000, 86400000000000ll, 5000000};
            g_wall_off += jumps[p];
        }
        t += g_wall_off;
    }
    ts->tv_sec = t / 1000000000ull;
    ts->tv_nsec = t % 1000000000ull;
    return 0;
}
int gettimeofday(struct timeval* tv, void*) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
time_t time(time_t* o) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (o) {
        *o = ts.tv_sec;
    }
    return ts.tv_sec;
}

long sysconf(int name) {
    if (live() && (name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF)) {
        return 4;
    }
    REAL(long, sysconf, int);
    return real_sysconf(name);
}
int get_nprocs() {
    if (live()) {
        return 4;
    }
    REAL(int, get_nprocs);
    return real_get_nprocs();
}

void __assert_fail(const char* e, const char* f, unsigned line, const char* fn) {
    sim::fail("assert", "assertion failed: %s (%s:%u)", e, f, line);
}

void* mmap(void* addr, size_t len, int prot, int flags, int fd, off_t off) {
    if (!live()) {
        long r = raw_syscall(SYS_mmap, (long)addr, len, prot, flags, fd, off);
        if (r < 0 && r > -4096) {
            errno = (int)-r;
            return MAP_FAILED;
        }
        return (void*)r;
    }
    point(4, RA() - g_base);
    if (fault(F_MMAP)) {
        errno = ENOMEM;
        return MAP_FAILED;
    }
    bool huge = (flags & MAP_HUGETLB) != 0;
    if (huge && fault(F_MMAP_HUGE)) {
        errno = ENOMEM;
        return MAP_FAILED;
    }
    flags &= ~(MAP_HUGETLB | (63 << MAP_HUGE_SHIFT) | MAP_POPULATE);
    size_t rounded = (len + 4095) & ~4095ull;
    size_t span = ((rounded + (2 << 20) - 1) & ~((2ull << 20) - 1)) + (2 << 20);
    uintptr_t want = 0;
    for (uint32_t i = g_nfreed; g_reuse && i-- > 0 && !want;) {
        if (g_freed[i].n >= span) { // the one given back last
            want = g_freed[i].a;
            g_freed[i].a += span;
            g_freed[i].n -= span;
        }
    }
    if (!want) {
        want = g_mmap_next;
        g_mmap_next += span;
    }
    long r = raw_syscall(SYS_mmap, want, len, prot, flags | MAP_FIXED_NOREPLACE | MAP_NORESERVE, fd,
                         off);
    if (r < 0 && r > -4096) {
        errno = (int)-r;
        return MAP_FAILED;
    }
    if ((flags & MAP_ANONYMOUS) && len && len <= (64u << 20)) {
        // Anonymous memory is zero by contract; leave it.
    }
    if (g_nregions < 4096) {
        g_regions[g_nregions++] = {(uintptr_t)r, len, huge};
    }
    return (void*)r;
}
int munmap(void* addr, size_t len) {
    if (!live()) {
        return raw_syscall(SYS_munmap, (long)addr, len) < 0 ? -1 : 0;
    }
    for (uint32_t i = 0; i < g_nregions; ++i) {
        if (g_regions[i].a == (uintptr_t)addr) {
            // A mapping made with huge pages must be released with a rounded length: both the
            // requested and the rounded one are the whole region.
            size_t whole = (g_regions[i].n + 4095) & ~4095ull;
            if (((len + 4095) & ~4095ull) < whole) {
                sim::fail("munmap-partial",
                          "a mapping of %zu bytes is released with length %zu", g_regions[i].n, len);
            }
            shadow_clear(g_regions[i].a, whole);
            raw_syscall(SYS_munmap, (long)addr, whole);
            g_regions[i] = g_regions[--g_nregions];
            if (g_nfreed < 256) {
                size_t span = ((whole + (2 << 20) - 1) & ~((2ull << 20) - 1)) + (2 << 20);
                g_freed[g_nfreed++] = {(uintptr_t)addr, span, false};
            }
            point(4, RA() - g_base);
            return 0;
        }
    }
    sim::fail("munmap-unknown", "munmap of an address that is not a live mapping");
}

unsigned simrt_rd_getval(void*) __asm__("_ZNSt13random_device9_M_getvalEv");
unsigned simrt_rd_getval(void*) {
    if (sim_on()) {
        // Two of a few thousand 32 bit words are equal now and then.
        static unsigned drawn[256];
        static unsigned n;
        if (n && fault(F_RANDOM_REPEAT)) {
            return drawn[prng(s_rand) % (n < 256 ? n : 256)];
        }
        return drawn[n++ % 256] = (unsigned)prng(s_rand);
    }
    return 4;
}
void simrt_rd_init(void*, const std::string&) __asm__("_ZNSt13random_device7_M_initERKSs");
void simrt_rd_init(void*, const std::string&) {}
void simrt_rd_init2(void*, const std::string&)
    __asm__("_ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE");
void simrt_rd_init2(void*, const std::string&) {}
void simrt_rd_fini(void*) __asm__("_ZNSt13random_device7_M_finiEv");
void simrt_rd_fini(void*) {}
}

namespace sim::rt {

// ---- exception objects ---------------------------------------------------------------------
// An exception held by several threads is counted inside libstdc++; giving one up is ordered
// before its destruction by whoever gives it up last.
static void exception_given_up(uintptr_t obj) {
    if (obj && live() && !self->quiet) {
        hb_acquire(obj);
        hb_release_join(obj);
    }
}
extern "C" {
void exception_release(void** p) __asm__("_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv");
void exception_release(void** p) {
    static auto real = (void (*)(void**))real_sym(
        "_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv");
    exception_given_up((uintptr_t)*p);
    real(p);
}
void __cxa_end_catch() {
    static auto real = (void (*)())real_sym("__cxa_end_catch");
    if (live() && !self->quiet) {
        uintptr_t obj = 0;
        Thread* me = self;
        self = nullptr;
        {
            std::exception_ptr e = std::current_exception();
            obj = *(uintptr_t*)&e;
        }
        self = me;
        exception_given_up(obj);
    }
    real();
}
}
} // namespace sim::rt
