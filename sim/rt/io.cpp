// File-system calls: pass-through to a private scratch directory, with faults, a disk quota
// and a crash model (after the crash point nothing reaches the disk any more).
#include "internal.h"
#include <algorithm>
#include <cstdarg>
#include <cstdio>
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

namespace sim::rt {
[[noreturn]] void internal_error(const char* fmt, ...);
#define RA() ((uintptr_t)__builtin_return_address(0) - 1)
#define REAL(ret, name, ...)                          \
    static ret (*real_##name)(__VA_ARGS__) = nullptr; \
    if (!real_##name) {                               \
        real_##name = (ret(*)(__VA_ARGS__))real_sym(#name); \
    }

static uint64_t g_quota = ~0ull;
static bool g_full_sticky = false;
constexpr int MAXFD = 512;
static bool g_fd_null[MAXFD];          // opened after the crash: writes vanish
static uint64_t g_fd_written[MAXFD];

void io_heal() { g_full_sticky = false; }
void io_begin_run() {
    g_quota = ~0ull;
    g_full_sticky = false;
}

static inline bool live() { return sim_on() && !self->quiet; }
static inline bool frozen() { return g_frozen && live(); }

// One mutating step. True: the step takes place. False: the process is (now) dead.
static bool crash_point(uint32_t* part = nullptr) {
    if (!live()) {
        return true;
    }
    if (g_frozen) {
        return false;
    }
    uint32_t p = 0;
    if (fault(F_IO_CRASH, &p)) {
        g_frozen = true;
        if (part) {
            *part = p;
        }
        return false;
    }
    return true;
}

static long do_write(int fd, const char* b, size_t n, uintptr_t site) {
    if (!live()) {
        return raw_syscall(SYS_write, fd, (long)b, n);
    }
    g_vtime += 1000 + n / 4;
    point(4, site);
    if (g_frozen) {
        return (long)n;
    }
    uint32_t part = 0;
    if (!crash_point(&part)) {
        size_t k = n ? part % (n + 1) : 0; // a prefix makes it
        if (k) {
            raw_syscall(SYS_write, fd, (long)b, k);
        }
        return (long)n;
    }
    if (g_full_sticky) {
        return -ENOSPC;
    }
    if (n == 0) {
        return 0;
    }
    if (fault(F_IO_EINTR)) {
        return -EINTR;
    }
    uint32_t p = 0;
    if (fault(F_IO_WRITE_ERR, &p)) {
        if (p % 4 == 0) {
            return -EIO;
        }
        g_full_sticky = true;
        // a full disk takes what still fits
        size_t k = (p / 4) % n;
        if (k == 0) {
            return -ENOSPC;
        }
        n = k;
    } else if (n > 1 && fault(F_IO_WRITE_SHORT, &p)) {
        n = 1 + p % (n - 1);
    }
    if (g_quota != ~0ull) {
        if (g_quota == 0) {
            sim::count_fault(F_IO_DISK_FULL);
            return -ENOSPC;
        }
        if (n > g_quota) {
            n = g_quota;
            sim::count_fault(F_IO_DISK_FULL);
        }
    }
    long r = raw_syscall(SYS_write, fd, (long)b, n);
    if (r > 0) {
        if (g_quota != ~0ull) {
            g_quota -= r;
        }
        if (fd < MAXFD) {
            g_fd_written[fd] += r;
        }
    }
    return r;
}

static long do_read(int fd, char* b, size_t n, uintptr_t site) {
    if (!live()) {
        return raw_syscall(SYS_read, fd, (long)b, n);
    }
    g_vtime += 1000 + n / 8;
    point(4, site);
    uint32_t p = 0;
    if (fault(F_IO_EINTR)) {
        return -EINTR;
    }
    if (fault(F_IO_READ_ERR)) {
        return -EIO;
    }
    if (n > 1 && fault(F_IO_READ_SHORT, &p)) {
        n = 1 + p % (n - 1);
    }
    return raw_syscall(SYS_read, fd, (long)b, n);
}

static long ret(long r) {
    if (r < 0 && r > -4096) {
        errno = (int)-r;
        return -1;
    }
    return r;
}
static bool open_fault() {
    uint32_t p = 0;
    if (fault(F_IO_OPEN, &p, 3)) {
        static const int e[] = {EMFILE, EACCES, EIO};
        errno = e[p];
        return true;
    }
    return false;
}
static void fd_reset(int fd) {
    if (fd >= 0 && fd < MAXFD) {
        g_fd_null[fd] = false;
        g_fd_written[fd] = 0;
    }
}
} // namespace sim::rt

namespace sim {
void disk_quota(uint64_t bytes) { rt::g_quota = bytes; }
void disk_revive() {
    rt::g_frozen = false;
    rt::g_full_sticky = false;
    rt::g_quota = ~0ull;
}
} // namespace sim

using namespace sim;
using namespace sim::rt;

extern "C" {

ssize_t write(int fd, const void* b, size_t n) {
    return ret(do_write(fd, (const char*)b, n, RA() - g_base));
}
ssize_t writev(int fd, const struct iovec* v, int cnt) {
    if (!live()) {
        return ret(raw_syscall(SYS_writev, fd, (long)v, cnt));
    }
    ssize_t total = 0;
    for (int i = 0; i < cnt; ++i) {
        size_t off = 0;
        if (v[i].iov_len == 0) {
            continue;
        }
        long r = do_write(fd, (const char*)v[i].iov_base + off, v[i].iov_len, RA() - g_base);
        if (r < 0) {
            if (total > 0) {
                return total;
            }
            return ret(r);
        }
        total += r;
        if ((size_t)r < v[i].iov_len) {
            return total;
        }
    }
    return total;
}
ssize_t read(int fd, void* b, size_t n) {
    return ret(do_read(fd, (char*)b, n, RA() - g_base));
}

FILE* fopen(const char* path, const char* mode) {
    REAL(FILE*, fopen, const char*, const char*);
    if (!live()) {
        return real_fopen(path, mode);
    }
    g_vtime += 5000;
    point(4, RA() - g_base);
    bool w = mode[0] != 'r' || mode[1] == '+' || (mode[1] && mode[2] == '+');
    if (w) {
        if (!crash_point()) {
            FILE* f = real_fopen("/dev/null", mode);
            return f;
        }
        if (g_full_sticky && access(path, F_OK) != 0) {
            errno = ENOSPC;
            return nullptr;
        }
    }
    if (open_fault()) {
        return nullptr;
    }
    FILE* f = real_fopen(path, mode);
    if (f) {
        fd_reset(fileno(f));
    }
    return f;
}
FILE* fopen64(const char* path, const char* mode) { return fopen(path, mode); }

static int open_impl(int dirfd, const char* path, int flags, mode_t mode, uintptr_t site) {
    if (!live()) {
        return (int)ret(raw_syscall(SYS_openat, dirfd, (long)path, flags, mode));
    }
    g_vtime += 5000;
    point(4, site);
    bool w = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
    if (w && !crash_point()) {
        return (int)ret(raw_syscall(SYS_openat, AT_FDCWD, (long)"/dev/null", O_RDWR, 0));
    }
    if (open_fault()) {
        return -1;
    }
    int fd = (int)ret(raw_syscall(SYS_openat, dirfd, (long)path, flags, mode));
    fd_reset(fd);
    return fd;
}
int open(const char* path, int flags, ...) {
    va_list ap;
    va_start(ap, flags);
    mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0;
    va_end(ap);
    return open_impl(AT_FDCWD, path, flags, m, RA() - g_base);
}
int open64(const char* path, int flags, ...) {
    va_list ap;
    va_start(ap, flags);
    mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0;
    va_end(ap);
    return open_impl(AT_FDCWD, path, flags, m, RA() - g_base);
}
int openat(int d, const char* path, int flags, ...) {
    va_list ap;
    va_start(ap, flags);
    mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0;
    va_end(ap);
    return open_impl(d, path, flags, m, RA() - g_base);
}

int fclose(FILE* f) {
    REAL(int, fclose, FILE*);
    if (!live()) {
        return real_fclose(f);
    }
    int fd = fileno(f);
    g_vtime += 2000;
    point(4, RA() - g_base);
    bool bad = fd >= 0 && fd < MAXFD && g_fd_written[fd] && !g_frozen && fault(F_IO_CLOSE);
    if (bad) {
        // what a failed close means: the tail written through this descriptor is lost
        struct stat st;
        if (fstat(fd, &st) == 0 && st.st_size > 0) {
            uint64_t lost = g_fd_written[fd] < 64 ? g_fd_written[fd] : 64;
            if (lost > (uint64_t)st.st_size) {
                lost = st.st_size;
            }
            raw_syscall(SYS_ftruncate, fd, st.st_size - lost);
        }
    }
    fd_reset(fd);
    int r = real_fclose(f);
    if (bad) {
        errno = EIO;
        return -1;
    }
    return r;
}
int close(int fd) {
    if (live()) {
        point(4, RA() - g_base);
        fd_reset(fd);
    }
    return (int)ret(raw_syscall(SYS_close, fd));
}

int mkdir(const char* p, mode_t m) {
    if (!live()) {
        return (int)ret(raw_syscall(SYS_mkdir, (long)p, m));
    }
    point(4, RA() - g_base);
    if (!crash_point()) {
        return 0;
    }
    if (g_full_sticky) {
        errno = ENOSPC;
        return -1;
    }
    if (fault(F_IO_MKDIR)) {
        errno = ENOSPC;
        return -1;
    }
    return (int)ret(raw_syscall(SYS_mkdir, (long)p, m));
}
int rename(const char* a, const char* b) {
    if (live()) {
        g_vtime += 5000;
        point(4, RA() - g_base);
        if (!crash_point()) {
            return 0;
        }
        if (fault(F_IO_RENAME)) {
            errno = EIO;
            return -1;
        }
    }
    return (int)ret(raw_syscall(SYS_rename, (long)a, (long)b));
}
int remove(const char* p) {
    if (live() && !crash_point()) {
        return 0;
    }
    long r = raw_syscall(SYS_unlink, (long)p);
    if (r == -EISDIR || r == -EPERM) {
        r = raw_syscall(SYS_rmdir, (long)p);
    }
    return (int)ret(r);
}
int unlink(const char* p) {
    if (live() && !crash_point()) {
        return 0;
    }
    return (int)ret(raw_syscall(SYS_unlink, (long)p));
}
int unlinkat(int d, const char* p, int f) {
    if (live() && !crash_point()) {
        return 0;
    }
    return (int)ret(raw_syscall(SYS_unlinkat, d, (long)p, f));
}
int truncate(const char* p, off_t n) {
    if (live() && !crash_point()) {
        return 0;
    }
    return (int)ret(raw_syscall(SYS_truncate, (long)p, n));
}
int ftruncate(int fd, off_t n) {
    if (live() && !crash_point()) {
        return 0;
    }
    return (int)ret(raw_syscall(SYS_ftruncate, fd, n));
}

// Directory listings: sorted by name (the underlying order is not ours), then shuffled.
struct DirList {
    DIR* d;
    int n, i;
    struct dirent e[200];
};
static DirList g_dl[4];
struct dirent* readdir(DIR* d) {
    REAL(struct dirent*, readdir, DIR*);
    if (!live()) {
        return real_readdir(d);
    }
    DirList* l = nullptr;
    for (auto& x : g_dl) {
        if (x.d == d) {
            l = &x;
        }
    }
    if (!l) {
        for (auto& x : g_dl) {
            if (!x.d) {
                l = &x;
                break;
            }
        }
        if (!l) {
            internal_error("too many open directories");
        }
        l->d = d;
        l->n = l->i = 0;
        struct dirent* e;
        while ((e = real_readdir(d)) != nullptr && l->n < 200) {
            memcpy(&l->e[l->n++], e, e->d_reclen < sizeof *e ? e->d_reclen : sizeof *e);
        }
        std::sort(l->e, l->e + l->n, [](const struct dirent& a, const struct dirent& b) {
            return strcmp(a.d_name, b.d_name) < 0;
        });
        uint32_t p = 0;
        if (fault(F_DIR_SHUFFLE, &p)) {
            uint64_t s = p;
            for (int i = l->n - 1; i > 0; --i) {
                std::swap(l->e[i], l->e[prng(s) % (i + 1)]);
            }
        }
    }
    if (l->i < l->n) {
        return &l->e[l->i++];
    }
    return nullptr;
}
int closedir(DIR* d) {
    REAL(int, closedir, DIR*);
    for (auto& x : g_dl) {
        if (x.d == d) {
            x.d = nullptr;
        }
    }
    return real_closedir(d);
}
}
