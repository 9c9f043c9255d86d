// Deterministic allocator with redzones, byte-accurate shadow and fault injection.
//
// Addresses depend only on the sequence of allocations, so that a run's behaviour cannot
// depend on where the process happens to live.  The parent process and the runs use
// different regions.
#include "internal.h"
#include <cstdio>
#include <cstdlib>
#include <errno.h>
#include <new>
#include <sys/mman.h>
#include <sys/syscall.h>

namespace sim::rt {
[[noreturn]] void internal_error(const char* fmt, ...);

struct Hdr {
    uint64_t size;   // bytes asked for
    uint32_t cls;    // size class
    uint32_t magic;  // live or freed
    uint64_t front;  // distance from start of the chunk to the user pointer
    uint32_t tid;
    uint32_t kind;
};
static_assert(sizeof(Hdr) == 32);
constexpr uint32_t LIVE = 0x11fe11fe, DEAD = 0xdeaddead;
constexpr uint8_t S_RZ = 0xFA, S_FREED = 0xFD;

static bool g_mapped = false;
static uintptr_t g_top_parent = HEAP_BASE;
static uintptr_t g_top_run = HEAP_RUN_BASE;
static bool g_in_run = false;

constexpr int NCLS = 256;
struct FreeNode {
    FreeNode* next;
};
static FreeNode* g_free[NCLS];      // run region
static FreeNode* g_free_par[NCLS];  // parent region
constexpr uint32_t QCAP = 1 << 16;
// Quarantine of freed blocks; large blocks have their own so that they do not drive out others.
struct Quarantine {
    uintptr_t q[QCAP];
    uint32_t h, t;
    uint64_t bytes;
};
static Quarantine g_quar[2];
static uint64_t g_live_blocks, g_live_bytes;
static volatile int g_lock; // only matters outside simulated runs

static inline uint8_t* sh(uintptr_t a) { return (uint8_t*)(HEAP_SHADOW + ((a - HEAP_BASE) >> 3)); }

static void map_heap() {
    long p = raw_syscall(SYS_mmap, HEAP_BASE, HEAP_PARENT + HEAP_RUN, PROT_READ | PROT_WRITE,
                         MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    long q = raw_syscall(SYS_mmap, HEAP_SHADOW, (HEAP_PARENT + HEAP_RUN) >> 3,
                         PROT_READ | PROT_WRITE,
                         MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p < 0 || q < 0) {
        static const char m[] = "simrt: cannot map heap\n";
        raw_syscall(SYS_write, 2, (long)m, sizeof m - 1);
        raw_syscall(SYS_exit_group, 3);
    }
    g_mapped = true;
}

// Size class of a chunk size (multiple of 32); returns rounded chunk size.
static uint32_t cls_of(size_t& n) {
    if (n <= 2048) {
        n = (n + 31) & ~31ull;
        return (uint32_t)(n / 32); // 1..64
    }
    int lg = 63 - __builtin_clzll(n - 1); // 2^lg < n <= 2^(lg+1)
    size_t step = (1ull << lg) / 4;
    size_t r = (n + step - 1) / step * step;
    uint32_t c = 65 + (uint32_t)(lg - 10) * 4 + (uint32_t)(r / step - 4);
    n = r;
    return c;
}

void heap_begin_run() {
    g_in_run = true;
    g_live_blocks = g_live_bytes = 0;
}

static void* do_alloc(size_t size, size_t align, uint32_t kind) {
    if (!g_mapped) {
        map_heap();
    }
    if (align < 16) {
        align = 16;
    }
    if (size > (6ull << 30)) {
        return nullptr;
    }
    // chunk: [hdr .. pad][user size][redzone >= 32]
    size_t front = align > 32 ? ((32 + align - 1) / align * align) : 32;
    size_t n = front + ((size + 7) & ~7ull) + 32;
    if (align > 32) {
        n += align;
    }
    uint32_t c = cls_of(n);
    uintptr_t base = 0;
    FreeNode*& fl = g_in_run ? g_free[c] : g_free_par[c];
    bool reused = false;
    if (fl) {
        base = (uintptr_t)fl;
        fl = fl->next;
        reused = true;
    } else {
        uintptr_t& top = g_in_run ? g_top_run : g_top_parent;
        base = top;
        uintptr_t lim = g_in_run ? HEAP_END : HEAP_RUN_BASE;
        if (base + n > lim) {
            return nullptr;
        }
        top += n;
    }
    uintptr_t user = base + 32;
    if (align > 32) {
        user = (base + 32 + align - 1) / align * align;
    }
    memset(sh(base), S_RZ, n >> 3);
    if (reused && g_in_run) {
        shadow_clear(user, size);
    }
    Hdr* h = (Hdr*)(user - 32);
    h->size = size;
    h->cls = c;
    h->magic = LIVE;
    h->front = user - base;
    h->tid = self ? self->id : 255;
    h->kind = kind;
    memset(sh(user), 0, size >> 3);
    if (size & 7) {
        *sh(user + (size & ~7ull)) = size & 7;
    }
    if (g_in_run) {
        memset((void*)user, g_fill, size);
        g_live_blocks++;
        g_live_bytes += size;
    }
    return (void*)user;
}

static void push_free(uintptr_t base, uint32_t cls) {
    FreeNode* f = (FreeNode*)base;
    FreeNode*& fl = g_in_run ? g_free[cls] : g_free_par[cls];
    f->next = fl;
    fl = f;
}

static void do_free(void* p) {
    uintptr_t u = (uintptr_t)p;
    if (!u || u < HEAP_BASE || u >= HEAP_END) {
        return; // not ours (mapped before we were initialised)
    }
    if (self && self->finished) {
        return; // runs beside another simulated thread: leave the block alone
    }
    if (g_in_run && u < HEAP_RUN_BASE) {
        return; // allocated before the run
    }
    Hdr* h = (Hdr*)(u - 32);
    if (g_in_run) {
        if ((u & 15) || *sh(u - 8) != S_RZ || (h->magic != LIVE && h->magic != DEAD)) {
            fail("heap-bad-free", "free of a pointer that was not returned by an allocation");
        }
        if (h->magic == DEAD) {
            fail("heap-double-free", "a block of %llu bytes is released twice",
                 (unsigned long long)h->size);
        }
    }
    size_t size = h->size;
    if (g_mt && sim_on() && !self->quiet && size) {
        // Releasing conflicts with every unordered access to the block.
        race_access(u, size, true, false, 0xf4ee);
    }
    h->magic = DEAD;
    memset(sh(u), S_FREED, (size + 7) >> 3);
    uintptr_t base = u - h->front;
    if (!g_in_run) {
        push_free(base, h->cls);
        return;
    }
    g_live_blocks--;
    g_live_bytes -= size;
    // Quarantine.
    Quarantine& q = g_quar[size > 32768];
    q.q[q.t++ % QCAP] = u;
    q.bytes += size + 64;
    while (q.bytes > (size > 32768 ? 2ull << 20 : 24ull << 20) || q.t - q.h >= QCAP) {
        uintptr_t v = q.q[q.h++ % QCAP];
        Hdr* vh = (Hdr*)(v - 32);
        q.bytes -= vh->size + 64;
        uint32_t c = vh->cls;
        push_free(v - vh->front, c);
    }
}

static size_t usable(void* p) { return ((Hdr*)((uintptr_t)p - 32))->size; }

struct Lk {
    bool taken;
    Lk() {
        taken = !g_in_run;
        if (taken) {
            while (__atomic_exchange_n(&g_lock, 1, __ATOMIC_ACQUIRE)) {
            }
        }
    }
    ~Lk() {
        if (taken) {
            __atomic_store_n(&g_lock, 0, __ATOMIC_RELEASE);
        }
    }
};

void heap_describe(char* out, size_t n, uintptr_t addr) {
    // Find the header by scanning the shadow backwards for the start of the block.
    uintptr_t a = addr & ~7ull;
    uintptr_t lo = addr < HEAP_RUN_BASE ? HEAP_BASE : HEAP_RUN_BASE;
    size_t steps = 0;
    while (a > lo + 32 && *sh(a) != S_RZ && steps < (1u << 27)) {
        a -= 8;
        ++steps;
    }
    if (*sh(a) == S_RZ) {
        Hdr* h = (Hdr*)(a + 8 - 32);
        if (h->magic == LIVE || h->magic == DEAD) {
            snprintf(out, n, "byte %llu of a %s heap block of %llu bytes (allocated by thread %u)",
                     (unsigned long long)(addr - (a + 8)), h->magic == LIVE ? "live" : "freed",
                     (unsigned long long)h->size, h->tid);
            return;
        }
    }
    snprintf(out, n, "heap");
}

[[noreturn]] static void bad_access(uintptr_t addr, size_t size, bool write, uintptr_t pc,
                                    uint8_t s) {
    const char* cls = s == S_FREED ? "heap-use-after-free" : "heap-out-of-bounds";
    char where[200];
    // For overruns describe the block in front.
    uintptr_t a = addr & ~7ull;
    if (s != S_FREED) {
        int k = 0;
        while (*sh(a) == S_RZ && a > HEAP_BASE && k < 4096) {
            a -= 8;
            k++;
        }
    }
    heap_describe(where, sizeof where, a);
    fail(cls, "thread %d %s %zu bytes at site 0x%llx outside live memory; nearest block: %s (+%lld)",
         self ? self->id : -1, write ? "writes" : "reads", size, (unsigned long long)pc, where,
         (long long)(addr - a));
}

void heap_check(uintptr_t addr, size_t size, bool write, uintptr_t pc) {
    if (addr - HEAP_BASE >= HEAP_END - HEAP_BASE) {
        return;
    }
    if (size == 0) {
        return;
    }
    uintptr_t first = addr & ~7ull;
    uintptr_t last = (addr + size - 1) & ~7ull;
    for (uintptr_t a = first; a <= last; a += 8) {
        while (last - a >= 64) {
            uint64_t v;
            memcpy(&v, sh(a), 8);
            if (v) {
                break;
            }
            a += 64;
        }
        uint8_t s = *sh(a);
        if (__builtin_expect(s == 0, 1)) {
            continue;
        }
        if (s < 8) {
            uintptr_t e = addr + size - a; // bytes of this word touched up to
            if (e > 8) {
                e = 8;
            }
            if (e <= s) {
                continue;
            }
        }
        bad_access(addr, size, write, pc, s);
    }
}

static bool alloc_fault() { return sim_on() && fault(F_ALLOC); }

void* heap_alloc(size_t size, size_t align, uint32_t kind) {
    Lk l;
    return do_alloc(size, align, kind);
}
} // namespace sim::rt

using namespace sim::rt;

namespace sim {
uint64_t heap_live_blocks() { return g_live_blocks; }
uint64_t heap_live_bytes() { return g_live_bytes; }
} // namespace sim

extern "C" {
void* malloc(size_t n) {
    void* p = heap_alloc(n, 16, 0);
    if (!p) {
        errno = ENOMEM;
    }
    return p;
}
void free(void* p) {
    Lk l;
    do_free(p);
}
void cfree(void* p) { free(p); }
void* calloc(size_t a, size_t b) {
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) {
        errno = ENOMEM;
        return nullptr;
    }
    void* p = malloc(n);
    if (p) {
        memset(p, 0, n);
    }
    return p;
}
void* realloc(void* o, size_t n) {
    if (!o) {
        return malloc(n);
    }
    void* p = malloc(n);
    if (p) {
        size_t u = 0;
        if ((uintptr_t)o >= HEAP_BASE && (uintptr_t)o < HEAP_END) {
            u = usable(o);
        }
        memcpy(p, o, u < n ? u : n);
        free(o);
    }
    return p;
}
void* reallocarray(void* o, size_t a, size_t b) {
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) {
        errno = ENOMEM;
        return nullptr;
    }
    return realloc(o, n);
}
void* memalign(size_t al, size_t n) { return heap_alloc(n, al, 0); }
void* aligned_alloc(size_t al, size_t n) { return heap_alloc(n, al, 0); }
int posix_memalign(void** out, size_t al, size_t n) {
    void* p = heap_alloc(n, al, 0);
    if (!p) {
        return ENOMEM;
    }
    *out = p;
    return 0;
}
void* valloc(size_t n) { return heap_alloc(n, 4096, 0); }
void* pvalloc(size_t n) { return heap_alloc((n + 4095) & ~4095ull, 4096, 0); }
size_t malloc_usable_size(void* p) {
    return p && (uintptr_t)p >= HEAP_BASE && (uintptr_t)p < HEAP_END ? usable(p) : 0;
}
}

static void* op_new(size_t n, size_t al) {
    if (alloc_fault()) {
        throw std::bad_alloc();
    }
    void* p = heap_alloc(n, al, 1);
    if (!p) {
        throw std::bad_alloc();
    }
    return p;
}
static void* op_new_nt(size_t n, size_t al) noexcept {
    if (alloc_fault()) {
        return nullptr;
    }
    return heap_alloc(n, al, 1);
}
void* operator new(size_t n) { return op_new(n, 16); }
void* operator new[](size_t n) { return op_new(n, 16); }
void* operator new(size_t n, std::align_val_t a) { return op_new(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return op_new(n, (size_t)a); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return op_new_nt(n, 16); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return op_new_nt(n, 16); }
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept {
    return op_new_nt(n, (size_t)a);
}
void* operator new[](size_t n, std::align_val_t a, const std::nothrow_t&) noexcept {
    return op_new_nt(n, (size_t)a);
}
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
void operator delete(void* p, std::align_val_t) noexcept { free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { free(p); }
