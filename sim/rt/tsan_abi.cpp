// The ThreadSanitizer instrumentation ABI, implemented by the simulator.
#include "internal.h"

namespace sim::rt {
void hb_relaxed_store(uintptr_t addr);
void hb_relaxed_rmw(uintptr_t addr);
void hb_relaxed_load(uintptr_t addr);
void hb_fence(bool acq, bool rel);

#define RA() ((uintptr_t)__builtin_return_address(0) - 1)

static inline __attribute__((always_inline)) void
plain(uintptr_t a, size_t n, bool write, uintptr_t ra, bool conflicts = true) {
    Thread* t = self;
    if (__builtin_expect(!g_active || !t || t->quiet || t->finished, 0)) {
        return;
    }
    ++g_acc;
    heap_check(a, n, write, ra - g_base);
    if (__builtin_expect(--g_plain_gap == 0, 0)) {
        plain_switch();
    }
    if (g_mt && conflicts) {
        race_access(a, n, write, false, ra - g_base);
    }
}
static void range(uintptr_t a, size_t n, bool write, uintptr_t ra) {
    if (n == 0) {
        return;
    }
    plain(a, n, write, ra);
}

static inline bool acq(int mo) {
    return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL ||
           mo == __ATOMIC_SEQ_CST;
}
static inline bool rel(int mo) {
    return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
}

static inline bool on() { return sim_on() && self->quiet == 0; }

template <typename T> static uint64_t lo64(T v) { return (uint64_t)v; }

template <typename T> static T a_load(const volatile T* p, int mo, uintptr_t ra) {
    if (!on()) {
        return __atomic_load_n(p, __ATOMIC_SEQ_CST);
    }
    Thread* t = self;
    uintptr_t a = (uintptr_t)p;
    if (t->spinning && t->spin_addr == p && t->spin_budget > 0) {
        T v = __atomic_load_n(p, __ATOMIC_SEQ_CST);
        if (lo64(v) == t->spin_val) {
            t->spin_budget--;
            return v;
        }
    }
    heap_check(a, sizeof(T), false, ra - g_base);
    point(1, ra - g_base);
    T v = __atomic_load_n(p, __ATOMIC_SEQ_CST);
    if (acq(mo)) {
        hb_acquire(a);
    } else {
        hb_relaxed_load(a);
    }
    if (g_mt) {
        race_access(a, sizeof(T), false, true, ra - g_base);
    }
    spin_check(t, p, lo64(v), ra - g_base);
    return v;
}
template <typename T> static void a_store(volatile T* p, T v, int mo, uintptr_t ra) {
    if (!on()) {
        __atomic_store_n(p, v, __ATOMIC_SEQ_CST);
        return;
    }
    uintptr_t a = (uintptr_t)p;
    heap_check(a, sizeof(T), true, ra - g_base);
    about_to_change(p);
    point(2, ra - g_base);
    __atomic_store_n(p, v, __ATOMIC_SEQ_CST);
    if (g_mt) { // before the release: it is part of what is released
        race_access(a, sizeof(T), true, true, ra - g_base);
    }
    if (rel(mo)) {
        hb_release(a);
    } else {
        hb_relaxed_store(a);
    }
    wrote_atomic(p);
}

// Read-modify-write: `f` computes the new value.
template <typename T, typename F>
static T a_rmw(volatile T* p, int mo, uintptr_t ra, F f) {
    if (!on()) {
        T o = __atomic_load_n(p, __ATOMIC_SEQ_CST);
        while (!__atomic_compare_exchange_n(p, &o, f(o), false, __ATOMIC_SEQ_CST,
                                            __ATOMIC_SEQ_CST)) {
        }
        return o;
    }
    Thread* t = self;
    uintptr_t a = (uintptr_t)p;
    heap_check(a, sizeof(T), true, ra - g_base);
    about_to_change(p);
    point(1, ra - g_base); // may turn out not to change anything: keep the spin state
    T o = __atomic_load_n(p, __ATOMIC_SEQ_CST);
    T n = f(o);
    __atomic_store_n(p, n, __ATOMIC_SEQ_CST);
    if (acq(mo)) {
        hb_acquire(a);
    } else {
        hb_relaxed_load(a);
    }
    if (g_mt) {
        race_access(a, sizeof(T), true, true, ra - g_base);
    }
    if (rel(mo)) {
        hb_release_join(a);
    } else {
        hb_relaxed_rmw(a);
    }
    if (n != o) {
        reset_spin(t);
        wrote_atomic(p);
    } else {
        spin_check(t, p, lo64(o), ra - g_base);
    }
    return o;
}
template <typename T>
static bool a_cas(volatile T* p, T* expected, T desired, int mo, int fmo, bool weak, uintptr_t ra) {
    if (!on()) {
        return __atomic_compare_exchange_n(p, expected, desired, false, __ATOMIC_SEQ_CST,
                                           __ATOMIC_SEQ_CST);
    }
    Thread* t = self;
    uintptr_t a = (uintptr_t)p;
    heap_check(a, sizeof(T), true, ra - g_base);
    about_to_change(p);
    point(1, ra - g_base);
    T o = __atomic_load_n(p, __ATOMIC_SEQ_CST);
    bool ok = o == *expected;
    if (ok && weak && fault(F_CAS_WEAK)) {
        ok = false;
    }
    if (ok) {
        __atomic_store_n(p, desired, __ATOMIC_SEQ_CST);
        if (acq(mo)) {
            hb_acquire(a);
        } else {
            hb_relaxed_load(a);
        }
        if (g_mt) {
            race_access(a, sizeof(T), true, true, ra - g_base);
        }
        if (rel(mo)) {
            hb_release_join(a);
        } else {
            hb_relaxed_rmw(a);
        }
        reset_spin(t);
        if (desired != o) {
            wrote_atomic(p);
        }
        return true;
    }
    *expected = o;
    if (acq(fmo)) {
        hb_acquire(a);
    } else {
        hb_relaxed_load(a);
    }
    if (g_mt) {
        race_access(a, sizeof(T), false, true, ra - g_base);
    }
    spin_check(t, p, lo64(o), ra - g_base);
    return false;
}
} // namespace sim::rt

using namespace sim::rt;
typedef unsigned char u8;
typedef unsigned short u16;
typedef unsigned int u32;
typedef unsigned long u64;

extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n)                                                                              \
    void __tsan_read##n(void* p) { plain((uintptr_t)p, n, false, RA()); }                  \
    void __tsan_write##n(void* p) { plain((uintptr_t)p, n, true, RA()); }                  \
    void __tsan_unaligned_read##n(void* p) { plain((uintptr_t)p, n, false, RA()); }        \
    void __tsan_unaligned_write##n(void* p) { plain((uintptr_t)p, n, true, RA()); }        \
    void __tsan_volatile_read##n(void* p) { plain((uintptr_t)p, n, false, RA()); }         \
    void __tsan_volatile_write##n(void* p) { plain((uintptr_t)p, n, true, RA()); }         \
    void __tsan_unaligned_volatile_read##n(void* p) { plain((uintptr_t)p, n, false, RA()); } \
    void __tsan_unaligned_volatile_write##n(void* p) { plain((uintptr_t)p, n, true, RA()); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { range((uintptr_t)p, n, false, RA()); }
void __tsan_write_range(void* p, size_t n) { range((uintptr_t)p, n, true, RA()); }
void simrt_write_range(void* p, size_t n) { range((uintptr_t)p, n, true, RA()); }
void __tsan_vptr_read(void** p) { plain((uintptr_t)p, 8, false, RA()); }
void __tsan_vptr_update(void** p, void* v) {
    // Storing what is there already is no change, but counts as an access in any case: what is
    // there may be junk.
    plain((uintptr_t)p, 8, true, RA(), *p != v);
}

#define ATOMICS(bits, T)                                                                   \
    T __tsan_atomic##bits##_load(const volatile T* p, int mo) { return a_load<T>(p, mo, RA()); } \
    void __tsan_atomic##bits##_store(volatile T* p, T v, int mo) { a_store<T>(p, v, mo, RA()); } \
    T __tsan_atomic##bits##_exchange(volatile T* p, T v, int mo) {                         \
        return a_rmw<T>(p, mo, RA(), [v](T) { return v; });                                \
    }                                                                                      \
    T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int mo) {                        \
        return a_rmw<T>(p, mo, RA(), [v](T o) { return (T)(o + v); });                     \
    }                                                                                      \
    T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int mo) {                        \
        return a_rmw<T>(p, mo, RA(), [v](T o) { return (T)(o - v); });                     \
    }                                                                                      \
    T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int mo) {                        \
        return a_rmw<T>(p, mo, RA(), [v](T o) { return (T)(o & v); });                     \
    }                                                                                      \
    T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int mo) {                         \
        return a_rmw<T>(p, mo, RA(), [v](T o) { return (T)(o | v); });                     \
    }                                                                                      \
    T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int mo) {                        \
        return a_rmw<T>(p, mo, RA(), [v](T o) { return (T)(o ^ v); });                     \
    }                                                                                      \
    T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int mo) {                       \
        return a_rmw<T>(p, mo, RA(), [v](T o) { return (T) ~(o & v); });                   \
    }                                                                                      \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int f) { \
        return a_cas<T>(p, e, v, mo, f, false, RA());                                      \
    }                                                                                      \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int f) { \
        return a_cas<T>(p, e, v, mo, f, true, RA());                                       \
    }                                                                                      \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T v, int mo, int f) { \
        a_cas<T>(p, &e, v, mo, f, false, RA());                                            \
        return e;                                                                          \
    }
ATOMICS(8, u8)
ATOMICS(16, u16)
ATOMICS(32, u32)
ATOMICS(64, u64)

void __tsan_atomic_thread_fence(int mo) {
    if (!on()) {
        return;
    }
    point(2, RA() - g_base);
    hb_fence(acq(mo), rel(mo));
}
void __tsan_atomic_signal_fence(int) {}

// memcpy & co. of instrumented objects are redirected here.
void* simrt_memcpy(void* d, const void* s, size_t n) {
    range((uintptr_t)s, n, false, RA());
    range((uintptr_t)d, n, true, RA());
    return memcpy(d, s, n);
}
void* simrt_memmove(void* d, const void* s, size_t n) {
    range((uintptr_t)s, n, false, RA());
    range((uintptr_t)d, n, true, RA());
    return memmove(d, s, n);
}
void* simrt_memset(void* d, int c, size_t n) {
    range((uintptr_t)d, n, true, RA());
    return memset(d, c, n);
}
int simrt_memcmp(const void* a, const void* b, size_t n) {
    range((uintptr_t)a, n, false, RA());
    range((uintptr_t)b, n, false, RA());
    return memcmp(a, b, n);
}
}
