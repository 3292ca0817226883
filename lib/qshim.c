/* Preloaded into the harness: reads of *.wad and *.lmp files are delivered in
   pieces, interrupted, delayed or failed, as the harness asks for each case.
   Files are recognised by the name they were opened with. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <string.h>
#include <stdatomic.h>
#include <sys/types.h>
#include <unistd.h>

#define MAXFD 4096
static atomic_int watched[MAXFD];
static atomic_uint seed, calls;
static atomic_int mode_short, mode_intr, mode_delay, fail_at, fail_kind, failed;

void qshim_reset(unsigned s, int sh, int intr, int delay, int at, int kind) {
    seed = s; calls = 0; mode_short = sh; mode_intr = intr; mode_delay = delay;
    fail_at = at; fail_kind = kind; failed = 0;
}
int qshim_failed(void) { return failed; }
int qshim_calls(void) { return (int)calls; }

static unsigned mix(unsigned x) {
    x ^= seed * 2654435761u; x ^= x >> 16; x *= 0x7feb352d; x ^= x >> 15; x *= 0x846ca68b; x ^= x >> 16;
    return x;
}
/* number of this call; delays; 1 when it is the one to fail */
static unsigned enter(int *fail) {
    unsigned n = atomic_fetch_add(&calls, 1) + 1;
    if (mode_delay) { unsigned r = mix(n) % 8; if (r > 4) usleep((r - 4) * mode_delay); }
    *fail = fail_at > 0 && (int)n == fail_at;
    if (*fail) failed = 1;
    return n;
}
static int is_watched(const char *p) {
    size_t l = p ? strlen(p) : 0;
    return l > 4 && (!strcmp(p + l - 4, ".wad") || !strcmp(p + l - 4, ".lmp"));
}
static int note(int fd, const char *p) {
    if (fd >= 0 && fd < MAXFD) watched[fd] = is_watched(p);
    return fd;
}
#define OPEN(name) \
int name(const char *p, int flags, ...) { \
    static int (*real)(const char *, int, ...); \
    if (!real) real = dlsym(RTLD_NEXT, #name); \
    mode_t m = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); } \
    if (is_watched(p) && (flags & O_ACCMODE) == O_RDONLY) { \
        int f; enter(&f); \
        if (f) { errno = EMFILE; return -1; } \
        return note(real(p, flags, m), p); \
    } \
    return note(real(p, flags, m), (flags & O_ACCMODE) == O_RDONLY ? p : ""); \
}
OPEN(open)
OPEN(open64)
int close(int fd) {
    static int (*real)(int);
    if (!real) real = dlsym(RTLD_NEXT, "close");
    if (fd >= 0 && fd < MAXFD) watched[fd] = 0;
    return real(fd);
}
ssize_t read(int fd, void *b, size_t n) {
    static ssize_t (*real)(int, void *, size_t);
    if (!real) real = dlsym(RTLD_NEXT, "read");
    if (fd >= 0 && fd < MAXFD && watched[fd] && n > 0) {
        int f; unsigned k = enter(&f), r = mix(k * 31 + 7);
        if (f) { errno = EIO; return -1; }
        if (mode_intr && r % 4 == 0) { errno = EINTR; return -1; }
        if (mode_short) { size_t m = 1 + (r >> 3) % (unsigned)mode_short; if (m < n) n = m; }
    }
    return real(fd, b, n);
}
#define SEEK(name) \
off_t name(int fd, off_t o, int w) { \
    static off_t (*real)(int, off_t, int); \
    if (!real) real = dlsym(RTLD_NEXT, #name); \
    if (fd >= 0 && fd < MAXFD && watched[fd] && w == SEEK_SET) { \
        int f; enter(&f); if (f) { errno = EIO; return -1; } } \
    return real(fd, o, w); \
}
SEEK(lseek)
SEEK(lseek64)
#define PREAD(name) \
ssize_t name(int fd, void *b, size_t n, off_t o) { \
    static ssize_t (*real)(int, void *, size_t, off_t); \
    if (!real) real = dlsym(RTLD_NEXT, #name); \
    if (fd >= 0 && fd < MAXFD && watched[fd] && n > 0) { \
        int f; unsigned k = enter(&f), r = mix(k * 31 + 7); \
        if (f) { errno = EIO; return -1; } \
        if (mode_intr && r % 4 == 0) { errno = EINTR; return -1; } \
        if (mode_short) { size_t m = 1 + (r >> 3) % (unsigned)mode_short; if (m < n) n = m; } \
    } \
    return real(fd, b, n, o); \
}
PREAD(pread)
PREAD(pread64)
