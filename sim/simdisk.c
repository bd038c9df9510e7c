/* simdisk.c - the simulated disk and clock.
 *
 * An LD_PRELOAD library.  Every libc entry through which CPython 2.7 or the
 * HDF5 library inside h5py reaches a file below the simulated root, and every
 * entry through which they read the wall clock, passes through here.  The
 * simulator (sim/core.py, by ctypes) owns a fault plan; this file counts the
 * events, decides from the plan alone what each one does, and logs it.
 * Nothing here draws a random number or reads a real clock.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <limits.h>

enum { C_OPEN = 1, C_CLOSE = 2, C_READ = 4, C_WRITE = 8, C_TRUNC = 16,
       C_FSYNC = 32, C_RENAME = 64, C_UNLINK = 128, C_CREATE = 256,
       C_SEEK = 512 };
enum { A_ERR = 1,        /* fail with errno = arg                            */
       A_SHORT = 2,      /* transfer at most arg bytes, succeed              */
       A_CRASH = 3,      /* the process dies before the call does anything   */
       A_TORN = 4,       /* arg bytes of the write reach the file, then dies */
       A_CRASH_AFTER = 5,/* the call completes, then the process dies        */
       A_PARTERR = 6     /* write: arg bytes reach the file, next call fails */
};

typedef struct { int cls; long nth; int action; long arg; int sticky;
                 long seen; long fired; char sub[64]; } fault_t;
typedef struct { int32_t op, file, file2, action; int64_t off, len, res;
                 int32_t err, flags, ino, pad; int64_t data; } rec_t;

#define MAXF 64
#define MAXFD 4096
#define MAXPATH 512
static fault_t F[MAXF];
static int nF;
static char root[PATH_MAX];
static size_t rootlen;
static int enabled, logging;
static int fdfile[MAXFD];            /* file id + 1 of each tracked fd */
static int fdflags[MAXFD];
static int fdino[MAXFD];             /* number of the inode behind each tracked fd */
static struct { dev_t d; ino_t i; int n; } inos[MAXPATH];
static int ninos, nextino;
static char *paths[MAXPATH];
static int npaths;
static rec_t *R; static long nR, capR;
static char *D; static long nD, capD;
static int64_t quota = -1;           /* bytes that may still be allocated */
static int64_t now_us, tick_us = 1000, sim_time_on;
static long events, denied;
static int readonly;                 /* errno of every attempt to open a file for writing */
static int64_t clock_reads;

#define REAL(ret, name, ...) static ret (*real_##name)(__VA_ARGS__)
REAL(int, open, const char *, int, ...);
REAL(int, open64, const char *, int, ...);
REAL(int, openat, int, const char *, int, ...);
REAL(int, openat64, int, const char *, int, ...);
REAL(int, close, int);
REAL(ssize_t, read, int, void *, size_t);
REAL(ssize_t, write, int, const void *, size_t);
REAL(ssize_t, pread64, int, void *, size_t, off64_t);
REAL(ssize_t, pwrite64, int, const void *, size_t, off64_t);
REAL(int, ftruncate64, int, off64_t);
REAL(int, fsync, int);
REAL(int, fdatasync, int);
REAL(int, rename, const char *, const char *);
REAL(int, link, const char *, const char *);
REAL(int, truncate, const char *, off_t);
REAL(int, unlink, const char *);
REAL(int, remove, const char *);
REAL(FILE *, fopen, const char *, const char *);
REAL(FILE *, fopen64, const char *, const char *);
REAL(time_t, time, time_t *);
REAL(int, gettimeofday, struct timeval *, void *);
REAL(int, clock_gettime, clockid_t, struct timespec *);

static void *sym(const char *n) { return dlsym(RTLD_NEXT, n); }
#define GET(name) do { if (!real_##name) real_##name = sym(#name); } while (0)

static int path_id(const char *p) {
    for (int i = 0; i < npaths; i++) if (!strcmp(paths[i], p)) return i;
    if (npaths == MAXPATH) return MAXPATH - 1;
    paths[npaths] = strdup(p);
    return npaths++;
}
static int ino_id(int fd, int fresh) {
    struct stat st;
    if (fstat(fd, &st)) return -1;
    for (int i = 0; i < ninos; i++)
        if (inos[i].d == st.st_dev && inos[i].i == st.st_ino) {
            if (fresh) inos[i].n = ++nextino;   /* a number used again */
            return inos[i].n;
        }
    if (ninos == MAXPATH) return -1;
    inos[ninos].d = st.st_dev; inos[ninos].i = st.st_ino;
    return inos[ninos++].n = ++nextino;
}
static int under(const char *p) {
    return enabled && p && rootlen && !strncmp(p, root, rootlen);
}
static rec_t *rec(int op, int file) {
    if (!logging) return NULL;
    if (nR == capR) { capR = capR ? 2 * capR : 1024;
        R = realloc(R, capR * sizeof(rec_t)); }
    rec_t *r = &R[nR++];
    memset(r, 0, sizeof *r);
    r->op = op; r->file = file; r->file2 = -1; r->data = -1;
    return r;
}
static int64_t blob(const void *b, long n) {
    while (nD + n > capD) { capD = capD ? 2 * capD : 1 << 20; D = realloc(D, capD); }
    memcpy(D + nD, b, n);
    nD += n;
    return nD - n;
}
static fault_t *match(int cls, int file) {
    events++;
    if (sim_time_on) now_us += tick_us;
    fault_t *hit = NULL;
    for (int i = 0; i < nF; i++) {
        fault_t *f = &F[i];
        if (!(f->cls & cls)) continue;
        if (f->sub[0] && (file < 0 || !strstr(paths[file], f->sub))) continue;
        f->seen++;
        if (f->seen == f->nth || (f->sticky && f->seen > f->nth))
            if (!hit) { hit = f; f->fired++; }
    }
    return hit;
}
static void die(void) { _exit(86); }

/* ---- control interface (ctypes) ---------------------------------------- */
void sim_reset(const char *r) {
    nF = 0; nR = nD = 0; quota = -1; readonly = 0; events = 0; ninos = nextino = 0;
    strncpy(root, r, sizeof root - 1); rootlen = strlen(root);
    for (int i = 0; i < npaths; i++) free(paths[i]);
    npaths = 0;
    memset(fdfile, 0, sizeof fdfile);
    enabled = 1; logging = 0;
}
void sim_enable(int on) { enabled = on; }
void sim_log(int on) { logging = on; }
void sim_log_clear(void) { nR = nD = 0; }
int sim_fault(int cls, long nth, int action, long arg, int sticky, const char *sub) {
    if (nF == MAXF) return -1;
    fault_t *f = &F[nF++];
    memset(f, 0, sizeof *f);
    f->cls = cls; f->nth = nth; f->action = action; f->arg = arg; f->sticky = sticky;
    if (sub) strncpy(f->sub, sub, sizeof f->sub - 1);
    return nF - 1;
}
long sim_fault_fired(int i) { return i < nF ? F[i].fired : 0; }
void sim_faults_clear(void) { nF = 0; quota = -1; readonly = 0; }
void sim_readonly(int err) { readonly = err; denied = 0; }
void sim_quota(int64_t q) { quota = q; denied = 0; }
long sim_quota_denied(void) { return denied; }
int64_t sim_quota_left(void) { return quota; }
long sim_events(void) { return events; }
long sim_log_count(void) { return nR; }
rec_t *sim_log_rec(long i) { return &R[i]; }
char *sim_log_data(int64_t off) { return D + off; }
int sim_npaths(void) { return npaths; }
const char *sim_path(int i) { return paths[i]; }
int sim_open_fds(void) { int n = 0; for (int i = 0; i < MAXFD; i++) n += fdfile[i] != 0; return n; }
int sim_fd_file(int fd) { return fd >= 0 && fd < MAXFD ? fdfile[fd] - 1 : -1; }
int sim_fd_flags(int fd) { return fd >= 0 && fd < MAXFD ? fdflags[fd] : 0; }
void sim_clock(int on, int64_t us, int64_t tick) { sim_time_on = on; now_us = us; tick_us = tick; }
void sim_clock_jump(int64_t us) { now_us += us; }
int64_t sim_clock_now(void) { return now_us; }
int64_t sim_clock_reads(void) { return clock_reads; }

/* ---- the seam ----------------------------------------------------------- */
static int do_open(int which, int dirfd, const char *path, int flags, mode_t mode) {
    int creating = (flags & O_CREAT) != 0;
    int track = under(path), id = -1;
    rec_t *r = NULL;
    struct stat st;
    int existed = 0;
    if (track) {
        id = path_id(path);
        existed = fstatat(AT_FDCWD, path, &st, 0) == 0;
        fault_t *f = match(creating && !existed ? C_CREATE | C_OPEN : C_OPEN, id);
        if (logging) { r = rec(creating && !existed ? C_CREATE : C_OPEN, id); r->flags = flags; }
        if (f && f->action == A_CRASH) die();
        if (f && f->action == A_ERR) {
            if (r) { r->action = A_ERR; r->res = -1; r->err = (int)f->arg; }
            errno = (int)f->arg;
            return -1;
        }
        int no = !existed && creating && quota == 0 ? ENOSPC
            : readonly && (existed ? (flags & O_ACCMODE) != O_RDONLY : creating && readonly == EROFS)
            ? readonly : 0;
        if (no) {
            denied++;
            if (r) { r->action = A_ERR; r->res = -1; r->err = no; }
            errno = no;
            return -1;
        }
    }
    int fd;
    switch (which) {
    case 0: GET(open); fd = real_open(path, flags, mode); break;
    case 1: GET(open64); fd = real_open64(path, flags, mode); break;
    case 2: GET(openat); fd = real_openat(dirfd, path, flags, mode); break;
    default: GET(openat64); fd = real_openat64(dirfd, path, flags, mode); break;
    }
    if (track) {
        if (r) { r->res = fd < 0 ? -1 : 0; r->err = fd < 0 ? errno : 0; }
        if (fd >= 0 && fd < MAXFD) {
            fdfile[fd] = id + 1; fdflags[fd] = flags;
            fdino[fd] = ino_id(fd, creating && !existed);
            if (r) r->ino = fdino[fd];
        }
    }
    return fd;
}
#define MODE mode_t mode = 0; if (flags & O_CREAT) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
int open(const char *p, int flags, ...) { MODE return do_open(0, 0, p, flags, mode); }
int open64(const char *p, int flags, ...) { MODE return do_open(1, 0, p, flags, mode); }
int openat(int d, const char *p, int flags, ...) { MODE return do_open(2, d, p, flags, mode); }
int openat64(int d, const char *p, int flags, ...) { MODE return do_open(3, d, p, flags, mode); }
int creat(const char *p, mode_t mode) { return do_open(0, 0, p, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int creat64(const char *p, mode_t mode) { return do_open(1, 0, p, O_CREAT | O_WRONLY | O_TRUNC, mode); }

int close(int fd) {
    GET(close);
    if (!enabled || fd < 0 || fd >= MAXFD || !fdfile[fd]) return real_close(fd);
    int id = fdfile[fd] - 1;
    fault_t *f = match(C_CLOSE, id);
    rec_t *r = rec(C_CLOSE, id);
    if (r) r->ino = fdino[fd];
    if (f && f->action == A_CRASH) die();
    fdfile[fd] = 0;
    int res = real_close(fd);
    if (f && f->action == A_ERR) {     /* like a deferred write error: the fd is gone */
        if (r) { r->action = A_ERR; r->res = -1; r->err = (int)f->arg; }
        errno = (int)f->arg;
        return -1;
    }
    if (f && f->action == A_CRASH_AFTER) die();
    return res;
}

static ssize_t do_read(int fd, void *b, size_t n, int64_t off) {
    GET(read); GET(pread64);
    if (!enabled || fd < 0 || fd >= MAXFD || !fdfile[fd])
        return off < 0 ? real_read(fd, b, n) : real_pread64(fd, b, n, off);
    int id = fdfile[fd] - 1;
    int64_t pos = off < 0 ? (int64_t)lseek(fd, 0, SEEK_CUR) : off;
    fault_t *f = match(C_READ, id);
    rec_t *r = rec(C_READ, id);
    if (r) r->ino = fdino[fd];
    if (r) { r->off = pos; r->len = n; }
    if (f && f->action == A_CRASH) die();
    if (f && f->action == A_ERR) {
        if (r) { r->action = A_ERR; r->res = -1; r->err = (int)f->arg; }
        errno = (int)f->arg;
        return -1;
    }
    if (f && f->action == A_SHORT && n > (size_t)f->arg && f->arg > 0) {
        n = f->arg;
        if (r) r->action = A_SHORT;
    }
    ssize_t res = off < 0 ? real_read(fd, b, n) : real_pread64(fd, b, n, off);
    if (r) { r->res = res; r->err = res < 0 ? errno : 0; }
    return res;
}
ssize_t read(int fd, void *b, size_t n) { return do_read(fd, b, n, -1); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return do_read(fd, b, n, o); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return do_read(fd, b, n, o); }

static ssize_t raw_write(int fd, const void *b, size_t n, int64_t off) {
    return off < 0 ? real_write(fd, b, n) : real_pwrite64(fd, b, n, off);
}
static ssize_t do_write(int fd, const void *b, size_t n, int64_t off) {
    GET(write); GET(pwrite64);
    if (!enabled || fd < 0 || fd >= MAXFD || !fdfile[fd]) return raw_write(fd, b, n, off);
    int id = fdfile[fd] - 1;
    int64_t pos = off;
    if (off < 0)
        pos = (fdflags[fd] & O_APPEND) ? (int64_t)lseek(fd, 0, SEEK_END)
                                       : (int64_t)lseek(fd, 0, SEEK_CUR);
    fault_t *f = match(C_WRITE, id);
    rec_t *r = rec(C_WRITE, id);
    if (r) r->ino = fdino[fd];
    size_t want = n;
    if (r) { r->off = pos; r->len = n; }
    if (f && f->action == A_CRASH) die();
    if (f && f->action == A_ERR) {
        if (r) { r->action = A_ERR; r->res = -1; r->err = (int)f->arg; }
        errno = (int)f->arg;
        return -1;
    }
    if (f && (f->action == A_SHORT || f->action == A_TORN) && f->arg > 0 && n > (size_t)f->arg) {
        n = f->arg;
        if (r) r->action = f->action;
    }
    if (quota >= 0) {                  /* a full disk: only growth needs space */
        struct stat st;
        int64_t size = fstat(fd, &st) == 0 ? st.st_size : 0;
        int64_t grow = pos + (int64_t)n - size;
        if (grow > quota) {
            int64_t fit = (int64_t)n - (grow - quota);
            if (fit <= 0) {
                denied++;
                if (r) { r->action = A_ERR; r->res = -1; r->err = ENOSPC; }
                errno = ENOSPC;
                return -1;
            }
            n = fit;
            if (r) r->action = A_SHORT;
            grow = quota;
        }
        if (grow > 0) quota -= grow;
    }
    ssize_t res = raw_write(fd, b, n, off);
    if (r) {
        int e = errno;
        r->res = res; r->err = res < 0 ? e : 0;
        if (res > 0) r->data = blob(b, res);
        errno = e;
    }
    if (f && (f->action == A_TORN || f->action == A_CRASH_AFTER)) die();
    (void)want;
    return res;
}
ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n, -1); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return do_write(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    ssize_t tot = 0;
    for (int i = 0; i < c; i++) {
        ssize_t k = do_write(fd, v[i].iov_base, v[i].iov_len, -1);
        if (k < 0) return tot ? tot : -1;
        tot += k;
        if ((size_t)k < v[i].iov_len) break;
    }
    return tot;
}

static int do_trunc(int fd, int64_t n) {
    GET(ftruncate64);
    if (!enabled || fd < 0 || fd >= MAXFD || !fdfile[fd]) return real_ftruncate64(fd, n);
    int id = fdfile[fd] - 1;
    fault_t *f = match(C_TRUNC, id);
    rec_t *r = rec(C_TRUNC, id);
    if (r) r->ino = fdino[fd];
    if (r) r->len = n;
    if (f && f->action == A_CRASH) die();
    if (f && f->action == A_ERR) {
        if (r) { r->action = A_ERR; r->res = -1; r->err = (int)f->arg; }
        errno = (int)f->arg;
        return -1;
    }
    int res = real_ftruncate64(fd, n);
    if (r) { r->res = res; r->err = res < 0 ? errno : 0; }
    if (f && (f->action == A_CRASH_AFTER || f->action == A_TORN)) die();
    return res;
}
int ftruncate(int fd, off_t n) { return do_trunc(fd, n); }
int ftruncate64(int fd, off64_t n) { return do_trunc(fd, n); }

static int do_fsync(int fd, int data) {
    GET(fsync); GET(fdatasync);
    if (!enabled || fd < 0 || fd >= MAXFD || !fdfile[fd])
        return data ? real_fdatasync(fd) : real_fsync(fd);
    int id = fdfile[fd] - 1;
    fault_t *f = match(C_FSYNC, id);
    rec_t *r = rec(C_FSYNC, id);
    if (r) r->ino = fdino[fd];
    if (f && f->action == A_CRASH) die();
    if (f && f->action == A_ERR) {
        if (r) { r->action = A_ERR; r->res = -1; r->err = (int)f->arg; }
        errno = (int)f->arg;
        return -1;
    }
    if (f && f->action == A_CRASH_AFTER) die();
    return 0;                          /* durability is simulated, not paid for */
}
int fsync(int fd) { return do_fsync(fd, 0); }
int fdatasync(int fd) { return do_fsync(fd, 1); }

int rename(const char *a, const char *b) {
    GET(rename);
    if (!under(a) && !under(b)) return real_rename(a, b);
    int ia = path_id(a), ib = path_id(b);
    fault_t *f = match(C_RENAME, ia);
    rec_t *r = rec(C_RENAME, ia);
    if (r) r->file2 = ib;
    if (f && f->action == A_CRASH) die();
    if (f && f->action == A_ERR) {
        if (r) { r->action = A_ERR; r->res = -1; r->err = (int)f->arg; }
        errno = (int)f->arg;
        return -1;
    }
    int res = real_rename(a, b);
    if (r) { r->res = res; r->err = res < 0 ? errno : 0; }
    if (f && f->action == A_CRASH_AFTER) die();
    return res;
}
int link(const char *a, const char *b) {
    GET(link);
    if (!under(a) && !under(b)) return real_link(a, b);
    int ia = path_id(a), ib = path_id(b);
    fault_t *f = match(C_RENAME, ia);
    rec_t *r = rec(C_RENAME, ia);
    if (r) { r->file2 = ib; r->flags = 1; }
    if (f && f->action == A_CRASH) die();
    if (f && f->action == A_ERR) {
        if (r) { r->action = A_ERR; r->res = -1; r->err = (int)f->arg; }
        errno = (int)f->arg;
        return -1;
    }
    int res = real_link(a, b);
    if (r) { r->res = res; r->err = res < 0 ? errno : 0; }
    if (f && f->action == A_CRASH_AFTER) die();
    return res;
}
int truncate(const char *p, off_t n) {
    GET(truncate);
    if (!under(p)) return real_truncate(p, n);
    int fd = open(p, O_WRONLY);
    if (fd < 0) return -1;
    int res = ftruncate(fd, n), e = errno;
    close(fd);
    errno = e;
    return res;
}
static int do_unlink(const char *p, int rm) {
    GET(unlink); GET(remove);
    if (!under(p)) return rm ? real_remove(p) : real_unlink(p);
    int id = path_id(p);
    fault_t *f = match(C_UNLINK, id);
    rec_t *r = rec(C_UNLINK, id);
    if (f && f->action == A_CRASH) die();
    if (f && f->action == A_ERR) {
        if (r) { r->action = A_ERR; r->res = -1; r->err = (int)f->arg; }
        errno = (int)f->arg;
        return -1;
    }
    int res = real_unlink(p);
    if (r) { r->res = res; r->err = res < 0 ? errno : 0; }
    if (f && f->action == A_CRASH_AFTER) die();
    return res;
}
int unlink(const char *p) { return do_unlink(p, 0); }
int remove(const char *p) { return do_unlink(p, 1); }

/* stdio on simulated files: libc's own FILE calls the kernel without passing
 * through the symbols above, so give it cookie streams that do. */
static ssize_t ck_read(void *c, char *b, size_t n) {
    return do_read((int)(intptr_t)c - 1, b, n, -1);
}
static ssize_t ck_write(void *c, const char *b, size_t n) {
    int fd = (int)(intptr_t)c - 1;
    size_t done = 0;
    while (done < n) {
        ssize_t k = do_write(fd, b + done, n - done, -1);
        if (k <= 0) return done;
        done += k;
    }
    return done;
}
static int ck_seek(void *c, off64_t *off, int whence) {
    off64_t r = lseek64((int)(intptr_t)c - 1, *off, whence);
    if (r < 0) return -1;
    *off = r;
    return 0;
}
static struct { FILE *f; int fd; } streams[64];
static int ck_close(void *c) {
    int fd = (int)(intptr_t)c - 1;
    for (int i = 0; i < 64; i++) if (streams[i].f && streams[i].fd == fd) streams[i].f = NULL;
    return close(fd);
}
int fileno(FILE *f) {                  /* os.fsync(f.fileno()) must find the fd */
    static int (*real_fileno)(FILE *);
    for (int i = 0; i < 64; i++) if (streams[i].f == f && f) return streams[i].fd;
    GET(fileno);
    return real_fileno(f);
}
int fileno_unlocked(FILE *f) { return fileno(f); }

static FILE *sim_fopen(const char *p, const char *m) {
    int plus = strchr(m, '+') != NULL, flags;
    switch (m[0]) {
    case 'r': flags = plus ? O_RDWR : O_RDONLY; break;
    case 'w': flags = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; break;
    case 'a': flags = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND; break;
    default: errno = EINVAL; return NULL;
    }
    int fd = do_open(0, 0, p, flags, 0666);
    if (fd < 0) return NULL;
    cookie_io_functions_t io = { ck_read, ck_write, ck_seek, ck_close };
    char mm[4] = { m[0], plus ? '+' : 0, 0, 0 };
    FILE *out = fopencookie((void *)(intptr_t)(fd + 1), mm, io);
    for (int i = 0; out && i < 64; i++)
        if (!streams[i].f) { streams[i].f = out; streams[i].fd = fd; break; }
    return out;
}
FILE *fopen(const char *p, const char *m) {
    GET(fopen);
    return under(p) ? sim_fopen(p, m) : real_fopen(p, m);
}
FILE *fopen64(const char *p, const char *m) {
    GET(fopen64);
    return under(p) ? sim_fopen(p, m) : real_fopen64(p, m);
}

/* ---- the simulated clock ------------------------------------------------ */
time_t time(time_t *t) {
    GET(time);
    if (!sim_time_on) return real_time(t);
    clock_reads++;
    time_t s = now_us / 1000000;
    if (t) *t = s;
    return s;
}
int gettimeofday(struct timeval *tv, void *tz) {
    GET(gettimeofday);
    if (!sim_time_on) return real_gettimeofday(tv, tz);
    clock_reads++;
    if (tv) { tv->tv_sec = now_us / 1000000; tv->tv_usec = now_us % 1000000; }
    return 0;
}
int clock_gettime(clockid_t c, struct timespec *ts) {
    GET(clock_gettime);
    if (!sim_time_on) return real_clock_gettime(c, ts);
    clock_reads++;
    ts->tv_sec = now_us / 1000000;
    ts->tv_nsec = (now_us % 1000000) * 1000;
    return 0;
}


/* ---- allocation failures ----------------------------------------------- */
extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
static volatile size_t alloc_min;          /* 0: off */
static volatile long alloc_nth, alloc_seen, alloc_failed;

void sim_alloc_arm(long min, long nth) {
    alloc_seen = alloc_failed = 0;
    alloc_nth = nth;
    alloc_min = (size_t)min;
}
void sim_alloc_off(void) { alloc_min = 0; }
long sim_alloc_fired(void) { return alloc_failed; }
long sim_alloc_seen(void) { return alloc_seen; }

static int deny_alloc(size_t n) {
    if (!alloc_min || n < alloc_min) return 0;
    if (++alloc_seen != alloc_nth) return 0;
    alloc_failed++;
    errno = ENOMEM;
    return 1;
}
void *malloc(size_t n) { return deny_alloc(n) ? 0 : __libc_malloc(n); }
void *calloc(size_t a, size_t b) {
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return 0; }
    return deny_alloc(n) ? 0 : __libc_calloc(a, b);
}
void *realloc(void *p, size_t n) { return deny_alloc(n) ? 0 : __libc_realloc(p, n); }
