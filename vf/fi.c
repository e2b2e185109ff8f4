/* File-system shim (LD_PRELOAD).
 *
 * Numbers the file-system calls made below a scratch directory while armed and, by plan, stops
 * the file system at call k (everything from then on has no effect, as if the process had been
 * killed there, possibly half way through a write), makes call k fail or write short, makes the
 * device full from call k on, or waits before every call until a controller lets it proceed.
 * Without vf_arm() it does nothing.
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <semaphore.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <pthread.h>

enum { K_OPEN = 1, K_WRITE, K_CLOSE, K_RENAME, K_LINK, K_UNLINK, K_CHMOD, K_MKDIR, K_RMDIR, K_SYNC, K_TRUNC, K_STAT, K_DIR, K_SYMLINK, K_READ, K_UTIME, K_MMAP, K_FSTAT };
enum { M_COUNT = 0, M_CRASH, M_CRASH_HALF, M_FAIL, M_SHORT, M_FULL, M_GATE };

typedef struct {
    int kind, flags, err, creat;
    long arg;
    char path[232];
} entry;

#define MAXE 4096
static entry trace_[MAXE];
static volatile int armed, frozen, ncalls, reached;
static int mode, plan_k, plan_err;
static long plan_cut;
static char prefix[1024];
static size_t plen;
static pthread_t owner;
static int any_thread;
static int also;               /* maps and fstat count as well */

/* ---- scheduling */
#define MAXP 4
typedef struct {
    sem_t go, at;
    volatile int state;         /* 0 running, 1 waiting before a call, 2 done */
    entry e;
} slot;
typedef struct { slot s[MAXP]; } sched;
static sched *sc;
static int me;

#define REAL(ret, name, args) \
    static ret (*real_##name) args; \
    if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name)

static int fullpath(int dirfd, const char *path, char *out, size_t n)
{
    if (!path) return 0;
    if (path[0] == '/') { snprintf(out, n, "%s", path); return 1; }
    char d[1024];
    if (dirfd == AT_FDCWD) { if (!getcwd(d, sizeof d)) return 0; }
    else {
        char p[64];
        snprintf(p, sizeof p, "/proc/self/fd/%d", dirfd);
        ssize_t r = readlink(p, d, sizeof d - 1);
        if (r < 0) return 0;
        d[r] = 0;
    }
    if (path[0]) snprintf(out, n, "%s/%s", d, path); else snprintf(out, n, "%s", d);
    return 1;
}

static int below(const char *full) { return strncmp(full, prefix, plen) == 0 && (full[plen] == '/' || full[plen] == 0); }

/* what to do with this call: 0 proceed, 1 fail with errno set, 2 write only plan_cut bytes and then be frozen, 3 short write */
static int step(int kind, int flags, int creat, long arg, const char *full, const char *full2)
{
    if (!any_thread && !pthread_equal(owner, pthread_self())) return 0;
    if (frozen) {
        if (kind == K_CLOSE || kind == K_STAT || kind == K_DIR || kind == K_READ) return 0;
        errno = EIO;
        return 1;
    }
    int k = ncalls++;
    entry *e = &trace_[k < MAXE ? k : MAXE - 1];
    e->kind = kind; e->flags = flags; e->creat = creat; e->arg = arg; e->err = 0;
    const char *rel = full + plen;
    if (*rel == '/') rel++;
    if (full2) {
        const char *rel2 = below(full2) ? full2 + plen + 1 : full2;
        snprintf(e->path, sizeof e->path, "%s -> %s", rel, rel2);
    } else
        snprintf(e->path, sizeof e->path, "%s", rel);
    if (mode == M_GATE) {
        slot *s = &sc->s[me];
        s->e = *e;
        s->state = 1;
        __sync_synchronize();
        sem_post(&s->at);
        while (sem_wait(&s->go) < 0 && errno == EINTR) ;
        s->state = 0;
        return 0;
    }
    if (mode == M_FULL) {
        if (k >= plan_k && (kind == K_WRITE || kind == K_MKDIR || kind == K_LINK || kind == K_SYMLINK || (kind == K_OPEN && creat))) {
            reached = 1;
            e->err = ENOSPC;
            errno = ENOSPC;
            return 1;
        }
        return 0;
    }
    if (mode == M_COUNT || k != plan_k) return 0;
    reached = 1;
    switch (mode) {
    case M_CRASH:
        frozen = 1;
        if (kind == K_CLOSE || kind == K_STAT || kind == K_DIR || kind == K_READ) return 0;
        errno = EIO;
        return 1;
    case M_CRASH_HALF:
        frozen = 1;
        return kind == K_WRITE ? 2 : (errno = EIO, 1);
    case M_FAIL:
        e->err = plan_err;
        errno = plan_err;
        return 1;
    case M_SHORT:
        return kind == K_WRITE ? 3 : 0;
    }
    return 0;
}

static int pstep(int kind, int flags, int creat, int dirfd, const char *path)
{
    char full[1400];
    int e = errno;
    if (!fullpath(dirfd, path, full, sizeof full) || !below(full)) { errno = e; return 0; }
    errno = e;
    return step(kind, flags, creat, 0, full, NULL);
}

static int pstep2(int kind, int d1, const char *p1, int d2, const char *p2)
{
    char f1[1400], f2[1400];
    int e = errno;
    if (!fullpath(d1, p1, f1, sizeof f1) || !fullpath(d2, p2, f2, sizeof f2) || (!below(f1) && !below(f2))) { errno = e; return 0; }
    errno = e;
    if (!below(f1)) return step(kind, 0, 0, 0, f2, f1);
    return step(kind, 0, 0, 0, f1, f2);
}

static int fstep(int kind, int fd, long arg)
{
    char p[64], full[1400];
    int e = errno;
    snprintf(p, sizeof p, "/proc/self/fd/%d", fd);
    ssize_t r = readlink(p, full, sizeof full - 1);
    errno = e;
    if (r < 0) return 0;
    full[r] = 0;
    if (!below(full)) return 0;
    return step(kind, 0, 0, arg, full, NULL);
}

/* ---- control */
void vf_arm(const char *dir, int m, int k, int err, long cut, int threads)
{
    snprintf(prefix, sizeof prefix, "%s", dir);
    plen = strlen(prefix);
    mode = m; plan_k = k; plan_err = err; plan_cut = cut;
    ncalls = 0; frozen = 0; reached = 0;
    owner = pthread_self();
    any_thread = threads;
    __sync_synchronize();
    armed = 1;
}
void vf_disarm(void) { armed = 0; frozen = 0; }
void vf_also(int on) { also = on; }
int vf_count(void) { return ncalls < MAXE ? ncalls : MAXE; }
int vf_reached(void) { return reached; }
entry *vf_entry(int i) { return &trace_[i]; }
int vf_sched_size(void) { return sizeof(sched); }
void vf_sched_init(sched *s)
{
    memset(s, 0, sizeof *s);
    for (int i = 0; i < MAXP; i++) { sem_init(&s->s[i].go, 1, 0); sem_init(&s->s[i].at, 1, 0); }
}
void vf_child(sched *s, int i, const char *dir)
{
    sc = s; me = i;
    vf_arm(dir, M_GATE, 0, 0, 0, 0);
}
void vf_child_done(void)
{
    armed = 0;
    sc->s[me].state = 2;
    __sync_synchronize();
    sem_post(&sc->s[me].at);
}
/* wait until process i stands before a call or is done; -1: it doesn't */
int vf_ctl_wait(sched *s, int i, int seconds)
{
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    t.tv_sec += seconds;
    for (;;) {
        if (sem_timedwait(&s->s[i].at, &t) == 0) return s->s[i].state;
        if (errno == ETIMEDOUT) return -1;
    }
}
void vf_ctl_go(sched *s, int i) { sem_post(&s->s[i].go); }
entry *vf_ctl_entry(sched *s, int i) { return &s->s[i].e; }

/* ---- interposed calls */
#define MODEARG(flags) \
    mode_t m = 0; \
    if ((flags) & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
#define CREATS(flags) (((flags) & O_CREAT) != 0)

int open(const char *path, int flags, ...)
{
    MODEARG(flags);
    REAL(int, open, (const char *, int, ...));
    if (armed && pstep(K_OPEN, flags, CREATS(flags), AT_FDCWD, path)) return -1;
    return real_open(path, flags, m);
}
int open64(const char *path, int flags, ...)
{
    MODEARG(flags);
    REAL(int, open64, (const char *, int, ...));
    if (armed && pstep(K_OPEN, flags, CREATS(flags), AT_FDCWD, path)) return -1;
    return real_open64(path, flags, m);
}
int openat(int d, const char *path, int flags, ...)
{
    MODEARG(flags);
    REAL(int, openat, (int, const char *, int, ...));
    if (armed && pstep(K_OPEN, flags, CREATS(flags), d, path)) return -1;
    return real_openat(d, path, flags, m);
}
int openat64(int d, const char *path, int flags, ...)
{
    MODEARG(flags);
    REAL(int, openat64, (int, const char *, int, ...));
    if (armed && pstep(K_OPEN, flags, CREATS(flags), d, path)) return -1;
    return real_openat64(d, path, flags, m);
}
int creat(const char *path, mode_t m) { return open(path, O_CREAT | O_WRONLY | O_TRUNC, m); }

FILE *fopen64(const char *path, const char *md)
{
    REAL(FILE *, fopen64, (const char *, const char *));
    if (armed && pstep(K_OPEN, 0, md[0] != 'r', AT_FDCWD, path)) return NULL;
    return real_fopen64(path, md);
}

ssize_t write(int fd, const void *b, size_t n)
{
    REAL(ssize_t, write, (int, const void *, size_t));
    if (armed) {
        int s = fstep(K_WRITE, fd, (long)n);
        if (s == 1) return -1;
        if (s >= 2) {
            size_t c = plan_cut < 0 ? n / 2 : (size_t)plan_cut < n ? (size_t)plan_cut : (n ? n - 1 : 0);
            ssize_t r = c ? real_write(fd, b, c) : 0;
            if (s == 3) return r;
            errno = EIO;
            return -1;
        }
    }
    return real_write(fd, b, n);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o)
{
    REAL(ssize_t, pwrite64, (int, const void *, size_t, off64_t));
    if (armed && fstep(K_WRITE, fd, (long)n)) return -1;
    return real_pwrite64(fd, b, n, o);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o)
{
    REAL(ssize_t, pwrite, (int, const void *, size_t, off_t));
    if (armed && fstep(K_WRITE, fd, (long)n)) return -1;
    return real_pwrite(fd, b, n, o);
}
ssize_t writev(int fd, const struct iovec *v, int n)
{
    REAL(ssize_t, writev, (int, const struct iovec *, int));
    if (armed && fstep(K_WRITE, fd, n)) return -1;
    return real_writev(fd, v, n);
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n)
{
    REAL(ssize_t, sendfile64, (int, int, off64_t *, size_t));
    if (armed && fstep(K_WRITE, o, (long)n)) return -1;
    return real_sendfile64(o, i, off, n);
}
ssize_t sendfile(int o, int i, off_t *off, size_t n)
{
    REAL(ssize_t, sendfile, (int, int, off_t *, size_t));
    if (armed && fstep(K_WRITE, o, (long)n)) return -1;
    return real_sendfile(o, i, off, n);
}
ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned f)
{
    REAL(ssize_t, copy_file_range, (int, off64_t *, int, off64_t *, size_t, unsigned));
    if (armed && fstep(K_WRITE, o, (long)n)) return -1;
    return real_copy_file_range(i, io, o, oo, n, f);
}
int close(int fd)
{
    REAL(int, close, (int));
    if (armed && fstep(K_CLOSE, fd, 0)) {
        int e = errno;
        real_close(fd);
        errno = e;
        return -1;
    }
    return real_close(fd);
}
ssize_t read(int fd, void *b, size_t n)
{
    REAL(ssize_t, read, (int, void *, size_t));
    if (armed && fstep(K_READ, fd, (long)n)) return -1;
    return real_read(fd, b, n);
}
int rename(const char *a, const char *b)
{
    REAL(int, rename, (const char *, const char *));
    if (armed && pstep2(K_RENAME, AT_FDCWD, a, AT_FDCWD, b)) return -1;
    return real_rename(a, b);
}
int renameat(int d1, const char *a, int d2, const char *b)
{
    REAL(int, renameat, (int, const char *, int, const char *));
    if (armed && pstep2(K_RENAME, d1, a, d2, b)) return -1;
    return real_renameat(d1, a, d2, b);
}
int renameat2(int d1, const char *a, int d2, const char *b, unsigned f)
{
    REAL(int, renameat2, (int, const char *, int, const char *, unsigned));
    if (armed && pstep2(K_RENAME, d1, a, d2, b)) return -1;
    return real_renameat2(d1, a, d2, b, f);
}
int link(const char *a, const char *b)
{
    REAL(int, link, (const char *, const char *));
    if (armed && pstep2(K_LINK, AT_FDCWD, a, AT_FDCWD, b)) return -1;
    return real_link(a, b);
}
int linkat(int d1, const char *a, int d2, const char *b, int f)
{
    REAL(int, linkat, (int, const char *, int, const char *, int));
    if (armed && pstep2(K_LINK, d1, a, d2, b)) return -1;
    return real_linkat(d1, a, d2, b, f);
}
int symlink(const char *a, const char *b)
{
    REAL(int, symlink, (const char *, const char *));
    if (armed && pstep(K_SYMLINK, 0, 0, AT_FDCWD, b)) return -1;
    return real_symlink(a, b);
}
int unlink(const char *a)
{
    REAL(int, unlink, (const char *));
    if (armed && pstep(K_UNLINK, 0, 0, AT_FDCWD, a)) return -1;
    return real_unlink(a);
}
int unlinkat(int d, const char *a, int f)
{
    REAL(int, unlinkat, (int, const char *, int));
    if (armed && pstep(K_UNLINK, f, 0, d, a)) return -1;
    return real_unlinkat(d, a, f);
}
int remove(const char *a)
{
    REAL(int, remove, (const char *));
    if (armed && pstep(K_UNLINK, 0, 0, AT_FDCWD, a)) return -1;
    return real_remove(a);
}
int rmdir(const char *a)
{
    REAL(int, rmdir, (const char *));
    if (armed && pstep(K_RMDIR, 0, 0, AT_FDCWD, a)) return -1;
    return real_rmdir(a);
}
int mkdir(const char *a, mode_t m)
{
    REAL(int, mkdir, (const char *, mode_t));
    if (armed && pstep(K_MKDIR, 0, 1, AT_FDCWD, a)) return -1;
    return real_mkdir(a, m);
}
int mkdirat(int d, const char *a, mode_t m)
{
    REAL(int, mkdirat, (int, const char *, mode_t));
    if (armed && pstep(K_MKDIR, 0, 1, d, a)) return -1;
    return real_mkdirat(d, a, m);
}
int chmod(const char *a, mode_t m)
{
    REAL(int, chmod, (const char *, mode_t));
    if (armed && pstep(K_CHMOD, m, 0, AT_FDCWD, a)) return -1;
    return real_chmod(a, m);
}
int fchmodat(int d, const char *a, mode_t m, int f)
{
    REAL(int, fchmodat, (int, const char *, mode_t, int));
    if (armed && pstep(K_CHMOD, m, 0, d, a)) return -1;
    return real_fchmodat(d, a, m, f);
}
int fchmod(int fd, mode_t m)
{
    REAL(int, fchmod, (int, mode_t));
    if (armed && fstep(K_CHMOD, fd, m)) return -1;
    return real_fchmod(fd, m);
}
int utimensat(int d, const char *a, const struct timespec t[2], int f)
{
    REAL(int, utimensat, (int, const char *, const struct timespec *, int));
    if (armed && pstep(K_UTIME, 0, 0, d, a)) return -1;
    return real_utimensat(d, a, t, f);
}
int fsync(int fd)
{
    REAL(int, fsync, (int));
    if (armed && fstep(K_SYNC, fd, 0)) return -1;
    return real_fsync(fd);
}
int fdatasync(int fd)
{
    REAL(int, fdatasync, (int));
    if (armed && fstep(K_SYNC, fd, 0)) return -1;
    return real_fdatasync(fd);
}
int ftruncate(int fd, off_t n)
{
    REAL(int, ftruncate, (int, off_t));
    if (armed && fstep(K_TRUNC, fd, n)) return -1;
    return real_ftruncate(fd, n);
}
int ftruncate64(int fd, off64_t n)
{
    REAL(int, ftruncate64, (int, off64_t));
    if (armed && fstep(K_TRUNC, fd, n)) return -1;
    return real_ftruncate64(fd, n);
}
int truncate64(const char *a, off64_t n)
{
    REAL(int, truncate64, (const char *, off64_t));
    if (armed && pstep(K_TRUNC, 0, 0, AT_FDCWD, a)) return -1;
    return real_truncate64(a, n);
}
int truncate(const char *a, off_t n)
{
    REAL(int, truncate, (const char *, off_t));
    if (armed && pstep(K_TRUNC, 0, 0, AT_FDCWD, a)) return -1;
    return real_truncate(a, n);
}
#define STATLIKE(name, T) \
    int name(const char *a, struct T *s) \
    { \
        REAL(int, name, (const char *, struct T *)); \
        if (armed && pstep(K_STAT, 0, 0, AT_FDCWD, a)) return -1; \
        return real_##name(a, s); \
    }
STATLIKE(stat, stat)
STATLIKE(stat64, stat64)
STATLIKE(lstat, stat)
STATLIKE(lstat64, stat64)
int fstatat(int d, const char *a, struct stat *s, int f)
{
    REAL(int, fstatat, (int, const char *, struct stat *, int));
    if (armed && pstep(K_STAT, f, 0, d, a)) return -1;
    return real_fstatat(d, a, s, f);
}
int fstatat64(int d, const char *a, struct stat64 *s, int f)
{
    REAL(int, fstatat64, (int, const char *, struct stat64 *, int));
    if (armed && pstep(K_STAT, f, 0, d, a)) return -1;
    return real_fstatat64(d, a, s, f);
}
int access(const char *a, int m)
{
    REAL(int, access, (const char *, int));
    if (armed && pstep(K_STAT, 0, 0, AT_FDCWD, a)) return -1;
    return real_access(a, m);
}
int faccessat(int d, const char *a, int m, int f)
{
    REAL(int, faccessat, (int, const char *, int, int));
    if (armed && pstep(K_STAT, 0, 0, d, a)) return -1;
    return real_faccessat(d, a, m, f);
}
DIR *opendir(const char *a)
{
    REAL(DIR *, opendir, (const char *));
    if (armed && pstep(K_DIR, 0, 0, AT_FDCWD, a)) return NULL;
    return real_opendir(a);
}

/* ---- only on request */
void *mmap(void *a, size_t n, int p, int f, int fd, off_t o)
{
    REAL(void *, mmap, (void *, size_t, int, int, int, off_t));
    if (armed && also && fd >= 0 && fstep(K_MMAP, fd, (long)n)) return MAP_FAILED;
    return real_mmap(a, n, p, f, fd, o);
}
void *mmap64(void *a, size_t n, int p, int f, int fd, off64_t o)
{
    REAL(void *, mmap64, (void *, size_t, int, int, int, off64_t));
    if (armed && also && fd >= 0 && fstep(K_MMAP, fd, (long)n)) return MAP_FAILED;
    return real_mmap64(a, n, p, f, fd, o);
}
int fstat(int fd, struct stat *s)
{
    REAL(int, fstat, (int, struct stat *));
    if (armed && also && fstep(K_FSTAT, fd, 0)) return -1;
    return real_fstat(fd, s);
}
int fstat64(int fd, struct stat64 *s)
{
    REAL(int, fstat64, (int, struct stat64 *));
    if (armed && also && fstep(K_FSTAT, fd, 0)) return -1;
    return real_fstat64(fd, s);
}
