/* The simulated file system under host code: interposes the calls Python makes below its open(), os and shutil
 * functions. Only paths under the root of the simulated run count. Faults are armed by rules: the n-th event of a
 * class, counted per rule and per thread, fails with an errno, is cut short, or crashes the process. Disarmed in
 * children (pthread_atfork), so that tools started by the code under test run undisturbed. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { C_OPENW, C_OPENR, C_WRITE, C_CLOSE, C_MKDIR, C_RENAME, C_UNLINK, C_READ, C_LIST, C_META, C_SYNC, NCLS };
enum { A_FAIL = 1, A_FAIL_ON = 2, A_SHORT = 3, A_CRASH = 4, A_CRASH_TORN = 5, A_CRASH_AFTER = 6 };
#define CRASH_CODE 57
#define MAXFD 4096

static char root[PATH_MAX];
static size_t rootlen;
static struct Rule { unsigned mask; long nth; int action, err; long tid; int on, id; } rules[16];
static int next_id;
static unsigned char hits[1 << 16]; /* by rule: fired */
static int nrules;
static long counts[NCLS], fired;
static unsigned char fdmode[MAXFD]; /* 1: written, 2: read */

static __thread int paused; /* the simulator's own work */
void iof_pause(int on) { paused = on; }
static pid_t owner; /* a vforked child shares this memory, and is left alone */
static void in_child(void) { nrules = 0; owner = getpid(); }
__attribute__((constructor)) static void init(void) { owner = getpid(); pthread_atfork(0, 0, in_child); }

void iof_setup(const char *r) { owner = getpid(); rootlen = strlen(r); if (rootlen >= sizeof root) rootlen = 0; memcpy(root, r, rootlen); root[rootlen] = 0; nrules = 0; fired = 0; memset(counts, 0, sizeof counts); memset(fdmode, 0, sizeof fdmode); }
int iof_arm(unsigned mask, long nth, int action, int err) { if (nrules < 16) { struct Rule r = {mask, nth, action, err, syscall(SYS_gettid), 0, ++next_id & 0xffff}; hits[r.id] = 0; rules[nrules++] = r; } return next_id & 0xffff; }
int iof_hit(int id) { return hits[id & 0xffff]; }
void iof_disarm(void) { long t = syscall(SYS_gettid); int k = 0; for (int i = 0; i < nrules; i++) if (rules[i].tid != t) rules[k++] = rules[i]; nrules = k; }
long iof_fired(void) { return fired; }
long iof_count(int c) { return c >= 0 && c < NCLS ? counts[c] : -1; }

static int under(const char *p)
{
    char b[PATH_MAX];
    if (!rootlen || !p || getpid() != owner) return 0;
    if (p[0] != '/') { if (!getcwd(b, sizeof b)) return 0; p = b; }
    return strncmp(p, root, rootlen) == 0 && (p[rootlen] == '/' || p[rootlen] == 0);
}
/* the rule that fires for this event, or 0 */
static struct Rule *event(int cls)
{
    if (paused) return 0;
    counts[cls]++;
    if (!nrules) return 0;
    long t = syscall(SYS_gettid);
    struct Rule *hit = 0;
    for (int i = 0; i < nrules; i++) {
        struct Rule *r = &rules[i];
        if (!(r->mask & (1u << cls)) || r->tid != t) continue;
        if (r->on) { if (!hit) hit = r; continue; }
        if (r->nth > 0 && --r->nth == 0) { if (r->action == A_FAIL_ON || r->action == A_SHORT) r->on = 1; if (!hit) hit = r; }
    }
    if (hit) { fired++; hits[hit->id] = 1; if (hit->action == A_CRASH) _exit(CRASH_CODE); }
    return hit;
}
#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, name)
/* for calls without partial effects: fails, or crashes behind the real call */
#define SIMPLE(cls, cond, callexpr, failval) do { \
    struct Rule *r_ = (cond) ? event(cls) : 0; \
    if (r_ && r_->action != A_CRASH_AFTER && r_->action != A_CRASH_TORN) { errno = r_->err ? r_->err : EIO; return failval; } \
    __typeof__(callexpr) v_ = callexpr; \
    if (r_) _exit(CRASH_CODE); \
    return v_; } while (0)

static int opened(int fd, int fl) { if (fd >= 0 && fd < MAXFD) fdmode[fd] = (fl & O_ACCMODE) == O_RDONLY ? 2 : 1; return fd; }
static int do_open(int (*f)(int, const char *, int, mode_t), int dfd, const char *p, int fl, mode_t m)
{
    int abs_ok = under(p) && (dfd == AT_FDCWD || p[0] == '/');
    if (!abs_ok || (fl & O_DIRECTORY)) return f(dfd, p, fl, m);
    struct Rule *r = event((fl & O_ACCMODE) == O_RDONLY ? C_OPENR : C_OPENW);
    if (r && r->action != A_CRASH_AFTER && r->action != A_CRASH_TORN) { errno = r->err ? r->err : EIO; return -1; }
    int fd = opened(f(dfd, p, fl, m), fl);
    if (r) _exit(CRASH_CODE);
    return fd;
}
#define MODE mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, int); va_end(ap); }
static int r_openat(int d, const char *p, int fl, mode_t m) { REAL(int, "openat64", int, const char *, int, ...); return real(d, p, fl, m); }
int open(const char *p, int fl, ...) { MODE return do_open(r_openat, AT_FDCWD, p, fl, m); }
int open64(const char *p, int fl, ...) { MODE return do_open(r_openat, AT_FDCWD, p, fl, m); }
int openat(int d, const char *p, int fl, ...) { MODE return do_open(r_openat, d, p, fl, m); }
int openat64(int d, const char *p, int fl, ...) { MODE return do_open(r_openat, d, p, fl, m); }

static int tracked(int fd, int mode) { return rootlen && fd >= 0 && fd < MAXFD && (fdmode[fd] & mode) && getpid() == owner; }
/* how many of n bytes the device takes; -1: error */
static ssize_t allow(int fd, size_t n, struct Rule **out)
{
    *out = 0;
    if (!tracked(fd, 1)) return (ssize_t)n;
    struct Rule *r = event(C_WRITE);
    if (!r) return (ssize_t)n;
    *out = r;
    if (r->action == A_SHORT && r->on == 1) { r->on = 2; r->err = r->err ? r->err : ENOSPC; return (ssize_t)((n + 1) / 2); }
    if (r->action == A_CRASH_TORN) return (ssize_t)(n / 2);
    if (r->action == A_CRASH_AFTER) return (ssize_t)n;
    errno = r->err ? r->err : EIO;
    return -1;
}
#define AFTER(r) if ((r) && ((r)->action == A_CRASH_TORN || (r)->action == A_CRASH_AFTER)) _exit(CRASH_CODE)
ssize_t write(int fd, const void *b, size_t n) { REAL(ssize_t, "write", int, const void *, size_t); struct Rule *r; ssize_t k = allow(fd, n, &r); if (k < 0) return -1; k = real(fd, b, (size_t)k); AFTER(r); return k; }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { REAL(ssize_t, "pwrite64", int, const void *, size_t, off64_t); struct Rule *r; ssize_t k = allow(fd, n, &r); if (k < 0) return -1; k = real(fd, b, (size_t)k, o); AFTER(r); return k; }
ssize_t writev(int fd, const struct iovec *v, int c) { REAL(ssize_t, "writev", int, const struct iovec *, int); struct Rule *r; ssize_t k = allow(fd, 2, &r); if (k < 0) return -1; k = real(fd, v, c); AFTER(r); return k; }
static off_t avail(int in, off_t *off, size_t n) { struct stat st; if (fstat(in, &st)) return (off_t)n; off_t p = off ? *off : lseek(in, 0, SEEK_CUR); off_t a = st.st_size - p; return a < 0 ? 0 : a < (off_t)n ? a : (off_t)n; }
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) { REAL(ssize_t, "sendfile64", int, int, off64_t *, size_t); struct Rule *r; off_t a = tracked(o, 1) ? avail(i, off, n) : (off_t)n; if (!a) return real(o, i, off, n); ssize_t k = allow(o, (size_t)a, &r); if (k < 0) return -1; k = real(o, i, off, (size_t)k); AFTER(r); return k; }
ssize_t sendfile(int o, int i, off_t *off, size_t n) { return sendfile64(o, i, off, n); }
ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned fl) { REAL(ssize_t, "copy_file_range", int, off64_t *, int, off64_t *, size_t, unsigned); struct Rule *r; off_t a = tracked(o, 1) ? avail(i, io, n) : (off_t)n; if (!a) return real(i, io, o, oo, n, fl); ssize_t k = allow(o, (size_t)a, &r); if (k < 0) return -1; k = real(i, io, o, oo, (size_t)k, fl); AFTER(r); return k; }
ssize_t read(int fd, void *b, size_t n)
{
    REAL(ssize_t, "read", int, void *, size_t);
    if (!tracked(fd, 2)) return real(fd, b, n);
    struct Rule *r = event(C_READ);
    if (r && r->action == A_SHORT) { if (r->on == 1) { r->on = 2; return real(fd, b, (n + 1) / 2); } return real(fd, b, n); }
    if (r && r->action < A_CRASH) { errno = r->err ? r->err : EIO; return -1; }
    ssize_t k = real(fd, b, n); if (r) _exit(CRASH_CODE); return k;
}
int close(int fd)
{
    REAL(int, "close", int);
    int w = tracked(fd, 1);
    if (fd >= 0 && fd < MAXFD && getpid() == owner) fdmode[fd] = 0;
    if (!w) return real(fd);
    struct Rule *r = event(C_CLOSE);
    int v = real(fd);
    if (r && r->action >= A_CRASH) _exit(CRASH_CODE);
    if (r) { errno = r->err ? r->err : EIO; return -1; }
    return v;
}
int mkdir(const char *p, mode_t m) { REAL(int, "mkdir", const char *, mode_t); SIMPLE(C_MKDIR, under(p), real(p, m), -1); }
int mkdirat(int d, const char *p, mode_t m) { REAL(int, "mkdirat", int, const char *, mode_t); SIMPLE(C_MKDIR, under(p), real(d, p, m), -1); }
int rename(const char *a, const char *b) { REAL(int, "rename", const char *, const char *); SIMPLE(C_RENAME, under(b), real(a, b), -1); }
int renameat(int x, const char *a, int y, const char *b) { REAL(int, "renameat", int, const char *, int, const char *); SIMPLE(C_RENAME, under(b), real(x, a, y, b), -1); }
int link(const char *a, const char *b) { REAL(int, "link", const char *, const char *); SIMPLE(C_RENAME, under(b), real(a, b), -1); }
int symlink(const char *a, const char *b) { REAL(int, "symlink", const char *, const char *); SIMPLE(C_RENAME, under(b), real(a, b), -1); }
int unlink(const char *p) { REAL(int, "unlink", const char *); SIMPLE(C_UNLINK, under(p), real(p), -1); }
int rmdir(const char *p) { REAL(int, "rmdir", const char *); SIMPLE(C_UNLINK, under(p), real(p), -1); }
int unlinkat(int d, const char *p, int f) { REAL(int, "unlinkat", int, const char *, int); SIMPLE(C_UNLINK, under(p), real(d, p, f), -1); }
DIR *opendir(const char *p) { REAL(DIR *, "opendir", const char *); SIMPLE(C_LIST, under(p), real(p), NULL); }
int chmod(const char *p, mode_t m) { REAL(int, "chmod", const char *, mode_t); SIMPLE(C_META, under(p), real(p, m), -1); }
int fchmodat(int d, const char *p, mode_t m, int f) { REAL(int, "fchmodat", int, const char *, mode_t, int); SIMPLE(C_META, under(p), real(d, p, m, f), -1); }
int utimensat(int d, const char *p, const struct timespec t[2], int f) { REAL(int, "utimensat", int, const char *, const struct timespec *, int); SIMPLE(C_META, under(p), real(d, p, t, f), -1); }
int fsync(int fd) { REAL(int, "fsync", int); SIMPLE(C_SYNC, tracked(fd, 1), real(fd), -1); }
int fdatasync(int fd) { REAL(int, "fdatasync", int); SIMPLE(C_SYNC, tracked(fd, 1), real(fd), -1); }
int ftruncate64(int fd, off64_t n) { REAL(int, "ftruncate64", int, off64_t); SIMPLE(C_WRITE, tracked(fd, 1), real(fd, n), -1); }
