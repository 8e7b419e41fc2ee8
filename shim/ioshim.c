/* Simulated disk seam: LD_PRELOAD interposer over the file system calls that
 * touch one scratch directory.  Off until dst_arm() is called in the process.
 * Every mutating operation under the root gets the next index; the armed plan
 * says at which index to fail, shorten, tear or crash.  An optional log of all
 * mutating operations feeds the power-loss model (dst/disk.py). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXFD 4096
#define MAXPLAN 64

enum act { A_ERR, A_ERRFROM, A_SHORT, A_TORN, A_CRASH, A_CRASHAFTER, A_EOF, A_HOOK };
struct item { char cls; long idx; enum act a; long arg; int done; };

static char root[PATH_MAX];
static size_t rootlen;
static int armed;
static long mops, rops, fired;
static struct item plan[MAXPLAN];
static int nplan;
static unsigned char tracked[MAXFD]; /* 1 = read, 2 = write */
static char *fdpath[MAXFD];
static int logfd = -1;
static long errfrom_idx = -1;
static int errfrom_no;
static char last_fault[256];
static void (*hook)(long, const char *, const char *);

#define REAL(ret, name, args) static ret (*real_##name) args; \
    if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name)

static void raw_log(const char *s, size_t n) {
    if (logfd >= 0) { while (n) { long k = syscall(SYS_write, logfd, s, n); if (k <= 0) break; s += k; n -= k; } }
}
static void logop(const char *op, const char *p, const char *q, long off, const void *data, long len) {
    if (logfd < 0) return;
    char head[2 * PATH_MAX + 128];
    int n = snprintf(head, sizeof head, "%s\t%ld\t%ld\t%s\t%s\n", op, off, len, p ? p : "-", q ? q : "-");
    raw_log(head, n);
    if (data && len > 0) raw_log(data, len);
    if (data) raw_log("\n", 1);
}
static int under(int dirfd, const char *path, char *out) {
    char tmp[PATH_MAX * 2];
    if (!armed || !path) return 0;
    if (path[0] == '/') snprintf(tmp, sizeof tmp, "%s", path);
    else if (dirfd == AT_FDCWD) {
        char cwd[PATH_MAX];
        if (syscall(SYS_getcwd, cwd, sizeof cwd) < 0) return 0;
        snprintf(tmp, sizeof tmp, "%s/%s", cwd, path);
    } else {
        char link[64], d[PATH_MAX];
        snprintf(link, sizeof link, "/proc/self/fd/%d", dirfd);
        long k = syscall(SYS_readlink, link, d, sizeof d - 1);
        if (k < 0) return 0;
        d[k] = 0;
        snprintf(tmp, sizeof tmp, "%s/%s", d, path);
    }
    /* collapse "/./" and "//" */
    char *w = out, *s = tmp;
    while (*s) {
        if (s[0] == '/' && s[1] == '/') { s++; continue; }
        if (s[0] == '/' && s[1] == '.' && (s[2] == '/' || !s[2])) { s += 2; continue; }
        if (s[0] == '/' && s[1] == '.' && s[2] == '.' && (s[3] == '/' || !s[3])) {
            while (w > out && *--w != '/') ;
            s += 3; continue;
        }
        *w++ = *s++;
    }
    *w = 0;
    if (strncmp(out, root, rootlen)) return 0;
    return out[rootlen] == '/' || out[rootlen] == 0;
}
static void crash(void) { syscall(SYS_exit_group, 77); }

/* returns the plan item that applies to this op, or NULL */
static struct item *next(char cls, const char *what, const char *path) {
    long *c = cls == 'm' ? &mops : &rops;
    long idx = ++*c;
    for (int i = 0; i < nplan; i++)
        if (plan[i].cls == cls && plan[i].idx == idx && !plan[i].done) {
            plan[i].done = 1; fired++;
            snprintf(last_fault, sizeof last_fault, "%s:%s", what, path ? path + (strlen(path) > 100 ? strlen(path) - 100 : 0) : "");
            if (plan[i].a == A_ERRFROM) { errfrom_idx = idx; errfrom_no = plan[i].arg; }
            if (plan[i].a == A_HOOK) { if (hook) { armed = 0; hook(idx, what, path); armed = 1; } return NULL; }
            if (plan[i].a == A_CRASH) crash();
            return &plan[i];
        }
    return NULL;
}
#define AFTER(it) do { if ((it) && (it)->a == A_CRASHAFTER) { logop("crash", "-", 0, 0, 0, 0); crash(); } } while (0)

/* ---- control ---- */
void dst_set_hook(void (*h)(long, const char *, const char *)) { hook = h; }
void dst_arm(const char *r, const char *text, int lfd) {
    snprintf(root, sizeof root, "%s", r); rootlen = strlen(root);
    nplan = 0; mops = rops = fired = 0; errfrom_idx = -1; logfd = lfd; last_fault[0] = 0;
    const char *s = text;
    while (s && *s && nplan < MAXPLAN) {
        char cls, act[32]; long idx, arg; int n = 0;
        if (sscanf(s, " %c %ld %31s %ld%n", &cls, &idx, act, &arg, &n) == 4) {
            struct item *p = &plan[nplan++];
            p->cls = cls; p->idx = idx; p->arg = arg; p->done = 0;
            p->a = !strcmp(act, "err") ? A_ERR : !strcmp(act, "errfrom") ? A_ERRFROM :
                   !strcmp(act, "short") ? A_SHORT : !strcmp(act, "torn") ? A_TORN :
                   !strcmp(act, "crash") ? A_CRASH : !strcmp(act, "crashafter") ? A_CRASHAFTER :
                   !strcmp(act, "hook") ? A_HOOK : A_EOF;
            s += n;
        } else break;
        while (*s == '\n' || *s == ' ') s++;
    }
    memset(tracked, 0, sizeof tracked);
    armed = 1;
}
void dst_disarm(void) { armed = 0; logfd = -1; }
long dst_mops(void) { return mops; }
long dst_rops(void) { return rops; }
long dst_fired(void) { return fired; }
const char *dst_last(void) { return last_fault; }

/* ---- open family ---- */
static int track(int fd, int flags, const char *p) {
    if (fd >= 0 && fd < MAXFD) {
        tracked[fd] = ((flags & O_ACCMODE) == O_RDONLY) ? 1 : 2;
        free(fdpath[fd]); fdpath[fd] = strdup(p);
    }
    return fd;
}
static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
    char p[PATH_MAX * 2];
    if (!under(dirfd, path, p)) return syscall(SYS_openat, dirfd, path, flags, mode);
    int wr = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
    struct item *it = next(wr ? 'm' : 'r', wr ? "open-w" : "open-r", p);
    if (it && (it->a == A_ERR || it->a == A_ERRFROM)) { errno = it->arg; return -1; }
    if (wr && errfrom_idx >= 0 && (flags & O_CREAT) && errfrom_no == ENOSPC) {
        struct stat st;
        if (syscall(SYS_newfstatat, dirfd, path, &st, 0) < 0) { errno = ENOSPC; return -1; }
    }
    int existed = 0;
    if (wr && logfd >= 0) { struct stat st; existed = syscall(SYS_newfstatat, dirfd, path, &st, 0) == 0; }
    int fd = syscall(SYS_openat, dirfd, path, flags, mode);
    if (fd >= 0) {
        track(fd, flags, p);
        if (wr) {
            if (!existed) logop("create", p, 0, 0, 0, 0);
            else if (flags & O_TRUNC) logop("trunc", p, 0, 0, 0, 0);
        }
    }
    AFTER(it);
    return fd;
}
#define OPENBODY(df) mode_t mode = 0; if (flags & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); } return do_open(df, path, flags, mode);
int open(const char *path, int flags, ...) { OPENBODY(AT_FDCWD) }
int open64(const char *path, int flags, ...) { OPENBODY(AT_FDCWD) }
int openat(int dfd, const char *path, int flags, ...) { OPENBODY(dfd) }
int openat64(int dfd, const char *path, int flags, ...) { OPENBODY(dfd) }
int creat(const char *path, mode_t mode) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int creat64(const char *path, mode_t mode) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }

int close(int fd) {
    struct item *it = NULL;
    if (armed && fd >= 0 && fd < MAXFD && tracked[fd]) {
        int wr = tracked[fd] == 2;
        tracked[fd] = 0;
        if (wr) {
            it = next('m', "close", fdpath[fd]);
            if (it && it->a == A_ERR) { syscall(SYS_close, fd); errno = it->arg; return -1; }
        }
    }
    int r = syscall(SYS_close, fd);
    AFTER(it);
    return r;
}

/* ---- data ---- */
static ssize_t do_write(int fd, const void *buf, size_t n, off_t off, int positional) {
    struct item *it = NULL; int tr = armed && fd >= 0 && fd < MAXFD && tracked[fd] == 2;
    if (tr) {
        it = next('m', "write", fdpath[fd]);
        if (it && (it->a == A_ERR || it->a == A_ERRFROM)) { errno = it->arg; return -1; }
        if (errfrom_idx >= 0) { errno = errfrom_no; return -1; }
        if (it && (it->a == A_SHORT || it->a == A_TORN)) {
            size_t k = (size_t)((n * (unsigned long)(it->arg % 1000)) / 1000);
            if (it->a == A_SHORT && k == 0) k = 1;
            if (k < n) n = k;
        }
        if (!positional) {
            int fl = syscall(SYS_fcntl, fd, F_GETFL, 0);
            off = syscall(SYS_lseek, fd, 0, (fl & O_APPEND) ? SEEK_END : SEEK_CUR);
        }
    }
    ssize_t r = positional ? syscall(SYS_pwrite64, fd, buf, n, off) : syscall(SYS_write, fd, buf, n);
    if (tr && r > 0) logop("write", fdpath[fd], 0, off, buf, r);
    if (it && it->a == A_TORN) crash();
    AFTER(it);
    return r;
}
ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n, 0, 0); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o, 1); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o, 1); }

static ssize_t do_read(int fd, void *buf, size_t n, off_t off, int positional) {
    struct item *it = NULL;
    if (armed && fd >= 0 && fd < MAXFD && tracked[fd]) {
        it = next('r', "read", fdpath[fd]);
        if (it && it->a == A_ERR) { errno = it->arg; return -1; }
        if (it && it->a == A_EOF) return 0;
        if (it && it->a == A_SHORT && n > 1) { size_t k = (n * (unsigned long)(it->arg % 1000)) / 1000; n = k ? k : 1; }
    }
    return positional ? syscall(SYS_pread64, fd, buf, n, off) : syscall(SYS_read, fd, buf, n);
}
ssize_t read(int fd, void *b, size_t n) { return do_read(fd, b, n, 0, 0); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return do_read(fd, b, n, o, 1); }
ssize_t pread64(int fd, void *b, size_t n, off_t o) { return do_read(fd, b, n, o, 1); }

static int do_ftruncate(int fd, off_t len) {
    struct item *it = NULL; int tr = armed && fd >= 0 && fd < MAXFD && tracked[fd] == 2;
    if (tr) { it = next('m', "ftruncate", fdpath[fd]); if (it && it->a == A_ERR) { errno = it->arg; return -1; } }
    int r = syscall(SYS_ftruncate, fd, len);
    if (tr && r == 0) logop("ftrunc", fdpath[fd], 0, len, 0, 0);
    AFTER(it);
    return r;
}
int ftruncate(int fd, off_t len) { return do_ftruncate(fd, len); }
int ftruncate64(int fd, off_t len) { return do_ftruncate(fd, len); }

static int do_sync(int fd, int nr) {
    struct item *it = NULL; int tr = armed && fd >= 0 && fd < MAXFD && tracked[fd];
    if (tr) {
        it = next('m', "fsync", fdpath[fd]);
        if (it && it->a == A_ERR) { errno = it->arg; return -1; }
        logop("fsync", fdpath[fd], 0, 0, 0, 0);
    }
    int r = tr ? 0 : syscall(nr, fd); /* the simulated disk needs no real flush */
    AFTER(it);
    return r;
}
int fsync(int fd) { return do_sync(fd, SYS_fsync); }
int fdatasync(int fd) { return do_sync(fd, SYS_fdatasync); }

/* ---- names ---- */
static int do_rename(int d1, const char *a, int d2, const char *b, unsigned fl) {
    char p[PATH_MAX * 2], q[PATH_MAX * 2];
    int u1 = under(d1, a, p), u2 = under(d2, b, q);
    struct item *it = NULL;
    if (u1 || u2) { it = next('m', "rename", u2 ? q : p); if (it && it->a == A_ERR) { errno = it->arg; return -1; } }
    int r = syscall(SYS_renameat2, d1, a, d2, b, fl);
    if ((u1 || u2) && r == 0) logop("rename", p, q, 0, 0, 0);
    AFTER(it);
    return r;
}
int rename(const char *a, const char *b) { return do_rename(AT_FDCWD, a, AT_FDCWD, b, 0); }
int renameat(int d1, const char *a, int d2, const char *b) { return do_rename(d1, a, d2, b, 0); }
int renameat2(int d1, const char *a, int d2, const char *b, unsigned fl) { return do_rename(d1, a, d2, b, fl); }

static int do_unlink(int d, const char *a, int fl) {
    char p[PATH_MAX * 2];
    int u = under(d, a, p);
    struct item *it = NULL;
    if (u) { it = next('m', "unlink", p); if (it && it->a == A_ERR) { errno = it->arg; return -1; } }
    int r = syscall(SYS_unlinkat, d, a, fl);
    if (u && r == 0) logop("unlink", p, 0, 0, 0, 0);
    AFTER(it);
    return r;
}
int unlink(const char *a) { return do_unlink(AT_FDCWD, a, 0); }
int unlinkat(int d, const char *a, int fl) { return do_unlink(d, a, fl); }

static int do_link(int d1, const char *a, int d2, const char *b, int fl) {
    char p[PATH_MAX * 2], q[PATH_MAX * 2];
    int u1 = under(d1, a, p), u2 = under(d2, b, q);
    struct item *it = NULL;
    if (u1 || u2) { it = next('m', "link", u2 ? q : p); if (it && it->a == A_ERR) { errno = it->arg; return -1; } }
    int r = syscall(SYS_linkat, d1, a, d2, b, fl);
    if ((u1 || u2) && r == 0) logop("link", p, q, 0, 0, 0);
    AFTER(it);
    return r;
}
int link(const char *a, const char *b) { return do_link(AT_FDCWD, a, AT_FDCWD, b, 0); }
int linkat(int d1, const char *a, int d2, const char *b, int fl) { return do_link(d1, a, d2, b, fl); }

/* stat-like probes are scheduling points too (races between look and act) */
