/* Preloaded into the processes under test: counts operations that change files (open for writing, write, rename, unlink,
   mkdir, rmdir, ...) of one process group, optionally ends that group with SIGKILL just before the k-th one, or in the
   middle of a write.  Control block: a shared file named by VERIF_SHIM. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

struct ctl { int64_t pgid, count, kill_at, torn, was_write, killed; };
static struct ctl *C;

static void *next(const char *n) { return dlsym(RTLD_NEXT, n); }

__attribute__((constructor)) static void init(void) {
    const char *p = getenv("VERIF_SHIM");
    if (!p) return;
    int (*o)(const char *, int, ...) = next("open");
    int fd = o(p, O_RDWR);
    if (fd < 0) return;
    void *m = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
    if (m != MAP_FAILED) C = m;
}

/* 0: go on; 1: end now; 2: write a part, then end */
static int tick(int is_write) {
    if (!C || !C->pgid || C->pgid != getpgrp()) return 0;
    int64_t n = __atomic_add_fetch(&C->count, 1, __ATOMIC_SEQ_CST);
    if (C->kill_at && n == C->kill_at) {
        C->was_write = is_write;
        C->killed = 1;
        if (is_write && C->torn) return 2;
        return 1;
    }
    if (C->kill_at && n > C->kill_at) for (;;) pause();
    return 0;
}

static void die(void) { for (;;) { kill(0, SIGKILL); pause(); } }
static int mine(const char *p) { return p && strncmp(p, "/dev/", 5) && strncmp(p, "/proc/", 6); }
#define T(p) do { int e_ = errno; if (mine(p) && tick(0)) die(); errno = e_; } while (0)

#define OPEN(name) int name(const char *p, int f, ...) { \
    va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); \
    static int (*r)(const char *, int, ...); if (!r) r = next(#name); \
    if ((f & (O_CREAT | O_TRUNC)) || (f & O_ACCMODE) != O_RDONLY) { T(p); } return r(p, f, m); }
#define OPENAT(name) int name(int d, const char *p, int f, ...) { \
    va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); \
    static int (*r)(int, const char *, int, ...); if (!r) r = next(#name); \
    if ((f & (O_CREAT | O_TRUNC)) || (f & O_ACCMODE) != O_RDONLY) { T(p); } return r(d, p, f, m); }
OPEN(open) OPEN(open64) OPENAT(openat) OPENAT(openat64)
int creat(const char *p, mode_t m) { static int (*r)(const char *, mode_t); if (!r) r = next("creat"); T(p); return r(p, m); }
int rename(const char *a, const char *b) { static int (*r)(const char *, const char *); if (!r) r = next("rename"); T(b); return r(a, b); }
int renameat(int d, const char *a, int e, const char *b) { static int (*r)(int, const char *, int, const char *); if (!r) r = next("renameat"); T(b); return r(d, a, e, b); }
int unlink(const char *p) { static int (*r)(const char *); if (!r) r = next("unlink"); T(p); return r(p); }
int unlinkat(int d, const char *p, int f) { static int (*r)(int, const char *, int); if (!r) r = next("unlinkat"); T(p); return r(d, p, f); }
int mkdir(const char *p, mode_t m) { static int (*r)(const char *, mode_t); if (!r) r = next("mkdir"); T(p); return r(p, m); }
int mkdirat(int d, const char *p, mode_t m) { static int (*r)(int, const char *, mode_t); if (!r) r = next("mkdirat"); T(p); return r(d, p, m); }
int rmdir(const char *p) { static int (*r)(const char *); if (!r) r = next("rmdir"); T(p); return r(p); }
int link(const char *a, const char *b) { static int (*r)(const char *, const char *); if (!r) r = next("link"); T(b); return r(a, b); }
int symlink(const char *a, const char *b) { static int (*r)(const char *, const char *); if (!r) r = next("symlink"); T(b); return r(a, b); }
int truncate(const char *p, off_t n) { static int (*r)(const char *, off_t); if (!r) r = next("truncate"); T(p); return r(p, n); }

ssize_t write(int fd, const void *b, size_t n) {
    static ssize_t (*r)(int, const void *, size_t);
    if (!r) r = next("write");
    if (C && C->pgid && C->pgid == getpgrp()) {
        int e = errno;
        struct stat s;
        if (!fstat(fd, &s) && S_ISREG(s.st_mode)) {
            int k = tick(1);
            if (k == 2) { if (n > 1) r(fd, b, n / 2); die(); }
            if (k == 1) die();
        }
        errno = e;
    }
    return r(fd, b, n);
}
