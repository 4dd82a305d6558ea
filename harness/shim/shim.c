/* Preloaded into the executor: sees the file operations of the server below one directory, and can make one of
 * them fail, be cut short, be the last one of the process, or wait; it also sets the clock.
 *
 * s3shim_cmd(cmd, out, len), commands:
 *   root PATH          watch operations on PATH and below
 *   reset              counter to 0, no plan, nothing paused, empty log
 *   plan fail N ERR    operation number N fails with errno ERR
 *   plan failall N ERR operations N, N+1, ... that need space (write, create, mkdir) fail with ERR
 *   plan failrest N ERR  all operations from N on fail with ERR
 *   plan short N       operation number N, if it writes or reads, handles at most 1 byte or half of the bytes
 *   plan crash N       the process ends just before operation number N; a write writes half of its bytes first
 *   plan pause N       operation number N waits for "go"; it gets a ticket
 *   go [TICKET]        let the paused operation with this ticket proceed, or all of them
 *   paused             tickets of the operations that wait
 *   count              number of operations so far
 *   log                names of the operations so far
 *   clock SEC          CLOCK_REALTIME stands still at SEC;  clock off
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

enum { NONE, FAIL, FAILALL, FAILREST, SHORT, CRASH, PAUSE };

static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
static char root[PATH_MAX];
static size_t rootlen;
static long counter, target, tickets;
static int mode, err;
static long waiting[64]; /* tickets of paused operations */
static char *oplog;
static size_t loglen, logcap;
static unsigned char mine[65536]; /* descriptors of watched files */
static volatile long frozen = -1;

#define REAL(ret, name, ...) \
    static ret (*real)(__VA_ARGS__); \
    if (!real) real = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, name);

static int watched(const char *p) {
    return rootlen && p && strncmp(p, root, rootlen) == 0 && (p[rootlen] == 0 || p[rootlen] == '/');
}
static int watched_at(int dfd, const char *p) {
    if (p && p[0] == '/') return watched(p);
    return dfd >= 0 && dfd < 65536 && mine[dfd];
}
static int watched_fd(int fd) { return fd >= 0 && fd < 65536 && mine[fd]; }
static void own(int fd, int w) {
    if (fd >= 0 && fd < 65536) mine[fd] = (unsigned char)w;
}

static void note(const char *name, const char *p) {
    char line[512];
    const char *rel = p && watched(p) ? p + rootlen : p ? p : "";
    int n = snprintf(line, sizeof line, "%s %.300s\n", name, rel);
    if (n >= (int)sizeof line) n = sizeof line - 1;
    if (loglen + (size_t)n + 1 > logcap) {
        if (logcap > 4000000) return;
        logcap = logcap ? logcap * 2 : 65536;
        oplog = realloc(oplog, logcap);
    }
    memcpy(oplog + loglen, line, (size_t)n);
    loglen += (size_t)n;
    oplog[loglen] = 0;
}

/* what to do with an operation: 0 proceed, 1 fail (errno is set), 2 short */
static int step(const char *name, const char *path, int space, int rw) {
    int r = 0;
    pthread_mutex_lock(&mu);
    long n = ++counter;
    note(name, path);
    if (mode == FAIL && n == target) { errno = err; r = 1; }
    else if (mode == FAILALL && n >= target && space) { errno = err; r = 1; }
    else if (mode == FAILREST && n >= target) { errno = err; r = 1; }
    else if (mode == SHORT && n == target && rw) r = 2;
    else if (mode == CRASH && n >= target) {
        if (rw == 2 && n == target) r = 3;
        else _exit(77);
    } else if (mode == PAUSE && n == target) {
        int i = 0;
        while (i < 63 && waiting[i]) i++;
        long t = ++tickets;
        waiting[i] = t;
        while (waiting[i] == t) pthread_cond_wait(&cv, &mu);
    }
    pthread_mutex_unlock(&mu);
    return r;
}

long s3shim_cmd(const char *cmd, char *out, long len) {
    char kind[32];
    long n = 0;
    int e = 0;
    out[0] = 0;
    pthread_mutex_lock(&mu);
    if (!strncmp(cmd, "root ", 5)) {
        snprintf(root, sizeof root, "%s", cmd + 5);
        rootlen = strlen(root);
    } else if (!strcmp(cmd, "reset")) {
        counter = 0; mode = NONE; loglen = 0; target = 0;
        if (oplog) oplog[0] = 0;
        memset(waiting, 0, sizeof waiting);
        pthread_cond_broadcast(&cv);
    } else if (sscanf(cmd, "plan %31s %ld %d", kind, &n, &e) >= 2) {
        mode = !strcmp(kind, "fail") ? FAIL : !strcmp(kind, "failall") ? FAILALL : !strcmp(kind, "short") ? SHORT : !strcmp(kind, "failrest") ? FAILREST
             : !strcmp(kind, "crash") ? CRASH : !strcmp(kind, "pause") ? PAUSE : NONE;
        target = n; err = e; counter = 0; loglen = 0;
        if (oplog) oplog[0] = 0;
    } else if (!strcmp(cmd, "go")) {
        memset(waiting, 0, sizeof waiting);
        mode = NONE;
        pthread_cond_broadcast(&cv);
    } else if (sscanf(cmd, "go %ld", &n) == 1) {
        for (int i = 0; i < 64; i++)
            if (waiting[i] == n) waiting[i] = 0;
        pthread_cond_broadcast(&cv);
    } else if (!strcmp(cmd, "paused")) {
        for (int i = 0; i < 64; i++)
            if (waiting[i]) snprintf(out + strlen(out), (size_t)len - strlen(out), "%ld ", waiting[i]);
    } else if (!strcmp(cmd, "count")) {
        snprintf(out, (size_t)len, "%ld", counter);
    } else if (!strcmp(cmd, "log")) {
        snprintf(out, (size_t)len, "%s", oplog ? oplog : "");
    } else if (!strcmp(cmd, "clock off")) {
        frozen = -1;
    } else if (sscanf(cmd, "clock %ld", &n) == 1) {
        frozen = n;
    } else {
        pthread_mutex_unlock(&mu);
        return -1;
    }
    pthread_mutex_unlock(&mu);
    return (long)strlen(out);
}

int clock_gettime(clockid_t id, struct timespec *ts) {
    REAL(int, "clock_gettime", clockid_t, struct timespec *)
    if (id == CLOCK_REALTIME && frozen >= 0) {
        ts->tv_sec = frozen;
        ts->tv_nsec = 0;
        return 0;
    }
    return real(id, ts);
}

static int do_open(int dfd, const char *p, int flags, mode_t m, int at, int (*call)(int, const char *, int, mode_t)) {
    int w = at ? watched_at(dfd, p) : watched(p);
    if (w && step(flags & (O_CREAT | O_TRUNC) ? "create" : "open", p, (flags & O_CREAT) != 0, 0) == 1) return -1;
    int fd = call(dfd, p, flags, m);
    own(fd, w);
    return fd;
}
#define MODE(m, flags) \
    mode_t m = 0; \
    if ((flags) & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, flags); m = (mode_t)va_arg(ap, int); va_end(ap); }

static int call_open64(int d, const char *p, int f, mode_t m) { (void)d; REAL(int, "open64", const char *, int, ...) return real(p, f, m); }
static int call_openat64(int d, const char *p, int f, mode_t m) { REAL(int, "openat64", int, const char *, int, ...) return real(d, p, f, m); }
int open64(const char *p, int flags, ...) { MODE(m, flags) return do_open(-1, p, flags, m, 0, call_open64); }
int open(const char *p, int flags, ...) { MODE(m, flags) return do_open(-1, p, flags, m, 0, call_open64); }
int openat64(int d, const char *p, int flags, ...) { MODE(m, flags) return do_open(d, p, flags, m, 1, call_openat64); }
int openat(int d, const char *p, int flags, ...) { MODE(m, flags) return do_open(d, p, flags, m, 1, call_openat64); }

int close(int fd) {
    REAL(int, "close", int)
    own(fd, 0);
    return real(fd);
}
int dup(int fd) {
    REAL(int, "dup", int)
    int r = real(fd);
    if (watched_fd(fd)) own(r, 1);
    return r;
}

ssize_t write(int fd, const void *b, size_t n) {
    REAL(ssize_t, "write", int, const void *, size_t)
    if (watched_fd(fd)) {
        int s = step("write", NULL, 1, 2);
        if (s == 1) return -1;
        if (s == 2) n = n > 1 ? n / 2 : n;
        if (s == 3) { (void)!real(fd, b, n / 2); _exit(77); }
    }
    return real(fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    REAL(ssize_t, "writev", int, const struct iovec *, int)
    if (watched_fd(fd)) {
        int s = step("writev", NULL, 1, 2);
        if (s == 1) return -1;
        if (s >= 2 && c > 0) {
            ssize_t r = write(fd, v[0].iov_base, v[0].iov_len > 1 ? v[0].iov_len / 2 : v[0].iov_len);
            if (s == 3) _exit(77);
            return r;
        }
    }
    return real(fd, v, c);
}
ssize_t read(int fd, void *b, size_t n) {
    REAL(ssize_t, "read", int, void *, size_t)
    if (watched_fd(fd)) {
        int s = step("read", NULL, 0, 1);
        if (s == 1) return -1;
        if (s == 2) n = n > 1 ? (n > 4000 ? 1000 : n / 2) : n;
    }
    return real(fd, b, n);
}
ssize_t copy_file_range(int a, off64_t *oa, int b, off64_t *ob, size_t n, unsigned f) {
    REAL(ssize_t, "copy_file_range", int, off64_t *, int, off64_t *, size_t, unsigned)
    if (watched_fd(a) || watched_fd(b)) {
        int s = step("copy_file_range", NULL, 1, 2);
        if (s == 1) return -1;
        if (s == 2) n = n > 1000 ? 1000 : n;
        if (s == 3) { (void)!real(a, oa, b, ob, 10, f); _exit(77); }
    }
    return real(a, oa, b, ob, n, f);
}
off64_t lseek64(int fd, off64_t o, int w) {
    REAL(off64_t, "lseek64", int, off64_t, int)
    if (watched_fd(fd) && step("lseek", NULL, 0, 0) == 1) return -1;
    return real(fd, o, w);
}
int fsync(int fd) {
    REAL(int, "fsync", int)
    if (watched_fd(fd) && step("fsync", NULL, 0, 0) == 1) return -1;
    return real(fd);
}
int fdatasync(int fd) {
    REAL(int, "fdatasync", int)
    if (watched_fd(fd) && step("fdatasync", NULL, 0, 0) == 1) return -1;
    return real(fd);
}
int ftruncate64(int fd, off64_t n) {
    REAL(int, "ftruncate64", int, off64_t)
    if (watched_fd(fd) && step("ftruncate", NULL, 1, 0) == 1) return -1;
    return real(fd, n);
}

int statx(int d, const char *p, int f, unsigned m, struct statx *b) {
    REAL(int, "statx", int, const char *, int, unsigned, struct statx *)
    int w = *p ? watched_at(d, p) : watched_fd(d);
    if (w && step("stat", p, 0, 0) == 1) return -1;
    return real(d, p, f, m, b);
}

#define PATH1(ret, fn, nm, space, bad) \
    ret fn(const char *p) { \
        REAL(ret, #fn, const char *) \
        if (watched(p) && step(nm, p, space, 0) == 1) return bad; \
        return real(p); \
    }
PATH1(int, unlink, "unlink", 0, -1)
PATH1(int, rmdir, "rmdir", 0, -1)

int mkdir(const char *p, mode_t m) {
    REAL(int, "mkdir", const char *, mode_t)
    if (watched(p) && step("mkdir", p, 1, 0) == 1) return -1;
    return real(p, m);
}
int rename(const char *a, const char *b) {
    REAL(int, "rename", const char *, const char *)
    if (watched(a) || watched(b)) {
        char both[700];
        snprintf(both, sizeof both, "%.300s -> %.300s", watched(a) ? a + rootlen : a, watched(b) ? b + rootlen : b);
        if (step("rename", both, 0, 0) == 1) return -1;
    }
    return real(a, b);
}
int link(const char *a, const char *b) {
    REAL(int, "link", const char *, const char *)
    if (watched(b) && step("link", b, 1, 0) == 1) return -1;
    return real(a, b);
}
int linkat(int da, const char *a, int db, const char *b, int f) {
    REAL(int, "linkat", int, const char *, int, const char *, int)
    if (watched_at(db, b) && step("link", b, 1, 0) == 1) return -1;
    return real(da, a, db, b, f);
}
int unlinkat(int d, const char *p, int f) {
    REAL(int, "unlinkat", int, const char *, int)
    if (watched_at(d, p) && step(f & AT_REMOVEDIR ? "rmdirat" : "unlinkat", p, 0, 0) == 1) return -1;
    return real(d, p, f);
}
DIR *opendir(const char *p) {
    REAL(DIR *, "opendir", const char *)
    int w = watched(p);
    if (w && step("opendir", p, 0, 0) == 1) return NULL;
    DIR *d = real(p);
    if (d) own(dirfd(d), w);
    return d;
}
struct dirent64 *readdir64(DIR *d) {
    REAL(struct dirent64 *, "readdir64", DIR *)
    if (watched_fd(dirfd(d)) && step("readdir", NULL, 0, 0) == 1) return NULL;
    return real(d);
}
int closedir(DIR *d) {
    REAL(int, "closedir", DIR *)
    own(dirfd(d), 0);
    return real(d);
}
char *realpath(const char *p, char *o) {
    REAL(char *, "realpath", const char *, char *)
    return real(p, o);
}
