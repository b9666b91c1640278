/*
 * Simulation shim for hyvr: an LD_PRELOAD library that puts the operating
 * system behind a seam.
 *
 * While disarmed it forwards everything.  While armed (sim_arm, called in the
 * forked child right before the code under test runs)
 *   - every file system call on a path below `scope` is a numbered event: it
 *     is logged, it may be failed / shortened / torn / preceded by a kill or a
 *     SIGINT according to the fault plan, and in scheduled mode it only runs
 *     after the controller granted it;
 *   - every modifying call outside `scope` is not executed but recorded as an
 *     escape (the sandbox is never at the mercy of the code under test);
 *   - directory listings come back in an order chosen by a seed;
 *   - clocks are simulated and getrandom() is a seeded PRNG.
 *
 * The log goes to an inherited memfd, so that it survives a kill.
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define MAXFD 4096
#define MAXPLAN 64
#define PB (PATH_MAX * 2)

enum { F_ERR = 1, F_SHORT, F_CRASH_BEFORE, F_CRASH_AFTER, F_TORN, F_STICKY,
       F_LOSTCLOSE, F_CLOCK, F_SIGINT, F_SIGTERM };

struct fault { int kind; long n; long arg; int fired; };

static int armed = 0;
static char scope[PATH_MAX];
static size_t scope_len = 0;
static char remap_from[PATH_MAX], remap_to[PATH_MAX];
static int log_fd = -1;
static int req_fd = -1, grant_fd = -1;
static long opn = 0;
static int sticky_errno = 0;
static struct fault plan[MAXPLAN];
static int nplan = 0;
static unsigned long long dir_seed = 0;
static unsigned long long rnd_state = 88172645463325252ULL;
static long long clk_ns = 0, clk_jump = 0, clk_step = 1000;
static char *fdpath[MAXFD];
static pthread_mutex_t mu = PTHREAD_RECURSIVE_MUTEX_INITIALIZER_NP;

/* ------------------------------------------------------------------ raw */
static int raw_openat(int d, const char *p, int fl, int mode)
{ return (int)syscall(SYS_openat, d, p, fl, mode); }
static ssize_t raw_write(int fd, const void *b, size_t n)
{ return syscall(SYS_write, fd, b, n); }
static int raw_close(int fd) { return (int)syscall(SYS_close, fd); }

static void die(void)
{ syscall(SYS_kill, getpid(), SIGKILL); for (;;) pause(); }

/* ------------------------------------------------------------ path logic */
static void normalise(char *p)
{   /* lexical normalisation of an absolute path, in place */
    char *out[PATH_MAX / 2]; int n = 0;
    char tmp[PB]; snprintf(tmp, sizeof tmp, "%s", p);
    char *save = NULL;
    for (char *t = strtok_r(tmp, "/", &save); t; t = strtok_r(NULL, "/", &save)) {
        if (!strcmp(t, ".")) continue;
        if (!strcmp(t, "..")) { if (n) n--; continue; }
        if (n < PATH_MAX / 2) out[n++] = t;
    }
    char res[PB]; size_t k = 0; res[0] = 0;
    for (int i = 0; i < n; i++) k += (size_t)snprintf(res + k, sizeof res - k, "/%s", out[i]);
    if (!n) strcpy(res, "/");
    strcpy(p, res);
}

static int resolve(int dirfd, const char *path, char *out)
{
    if (!path) return -1;
    if (path[0] == '/') {
        snprintf(out, PB, "%s", path);
    } else {
        char base[PATH_MAX]; base[0] = 0;
        if (dirfd == AT_FDCWD) {
            if (syscall(SYS_getcwd, base, sizeof base) < 0) return -1;
        } else if (dirfd >= 0 && dirfd < MAXFD && fdpath[dirfd]) {
            snprintf(base, sizeof base, "%s", fdpath[dirfd]);
        } else {
            char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
            ssize_t r = syscall(SYS_readlink, l, base, sizeof base - 1);
            if (r < 0) return -1;
            base[r] = 0;
        }
        snprintf(out, PB, "%s/%s", base, path);
    }
    normalise(out);
    return 0;
}

static int in_scope(const char *abs)
{ return scope_len && !strncmp(abs, scope, scope_len)
         && (abs[scope_len] == '/' || abs[scope_len] == 0); }

static int exempt(const char *abs)
{ return !strncmp(abs, "/dev/", 5) || !strncmp(abs, "/proc/", 6); }

static const char *rel(const char *abs)
{ return in_scope(abs) ? (abs[scope_len] ? abs + scope_len + 1 : ".") : abs; }

/* ------------------------------------------------------------------ log */
static void logline(const char *fmt, ...)
{
    if (log_fd < 0) return;
    char b[PB * 2]; va_list ap; va_start(ap, fmt);
    int n = vsnprintf(b, sizeof b - 2, fmt, ap); va_end(ap);
    if (n > (int)sizeof b - 2) n = (int)sizeof b - 2;
    for (int i = 0; i < n; i++) if (b[i] == '\n') b[i] = ' ';
    b[n++] = '\n';
    raw_write(log_fd, b, (size_t)n);
}

static void escape(const char *op, const char *abs)
{ int e = errno; logline("!\tESCAPE\t%s\t%s", op, abs); errno = e; }

/* ---------------------------------------------------------------- events */
struct act { int err; int crash_after; long torn; long shortn; int lost; };

static int is_space_op(const char *op)
{ return !strcmp(op, "write") || !strcmp(op, "pwrite") || !strcmp(op, "creat")
      || !strcmp(op, "mkdir") || !strcmp(op, "truncate"); }

/* Announces an event.  Returns what has to happen with it. */
static struct act event(const char *op, const char *path, const char *path2, long size)
{
    struct act a = {0, 0, -1, -1, 0};
    int e = errno;
    long n = opn++;
    if (req_fd >= 0) {
        char b[PB]; int k = snprintf(b, sizeof b - 1, "%ld\t%s\t%s\n", n, op, rel(path));
        raw_write(req_fd, b, (size_t)k);
        char g = 0; ssize_t r;
        do { r = syscall(SYS_read, grant_fd, &g, 1); } while (r < 0 && errno == EINTR);
        if (r != 1 || g == 'k') die();
    }
    logline("%ld\t%s\t%s\t%s\t%ld", n, op, rel(path), path2 ? rel(path2) : "", size);
    for (int i = 0; i < nplan; i++) {
        struct fault *f = &plan[i];
        if (f->n != n) continue;
        f->fired = 1;
        logline("#\tFAULT\t%d\t%ld\t%ld\t%s", f->kind, n, f->arg, op);
        switch (f->kind) {
        case F_ERR: a.err = (int)f->arg; break;
        case F_SHORT: a.shortn = f->arg; break;
        case F_CRASH_BEFORE: die(); break;
        case F_CRASH_AFTER: a.crash_after = 1; break;
        case F_TORN: a.torn = f->arg; break;
        case F_STICKY: sticky_errno = (int)f->arg; break;
        case F_LOSTCLOSE: a.lost = 1; break;
        case F_CLOCK: clk_jump += f->arg * 1000000000LL; break;
        case F_SIGINT: raise(SIGINT); break;
        case F_SIGTERM: raise(SIGTERM); break;
        }
    }
    if (sticky_errno && !a.err && is_space_op(op)) a.err = sticky_errno;
    errno = e;
    return a;
}

static void done(struct act a) { if (a.crash_after) die(); }

static void set_fd(int fd, const char *abs)
{ if (fd >= 0 && fd < MAXFD) { free(fdpath[fd]); fdpath[fd] = abs ? strdup(abs) : NULL; } }

/* ------------------------------------------------------------ control API */
void sim_set_scope(const char *s) { snprintf(scope, sizeof scope, "%s", s); scope_len = strlen(scope); }
void sim_set_remap(const char *f, const char *t)
{ snprintf(remap_from, sizeof remap_from, "%s", f); snprintf(remap_to, sizeof remap_to, "%s", t); }
void sim_set_fds(int lfd, int rfd, int gfd) { log_fd = lfd; req_fd = rfd; grant_fd = gfd; }
void sim_set_env(unsigned long long ds, unsigned long long rs, long long clk0, long long step)
{ dir_seed = ds; rnd_state = rs ? rs : 1; clk_ns = clk0 * 1000000000LL; clk_step = step; clk_jump = 0; }
void sim_clear_plan(void) { nplan = 0; sticky_errno = 0; }
int sim_add_fault(int kind, long n, long arg)
{ if (nplan >= MAXPLAN) return -1;
  plan[nplan].kind = kind; plan[nplan].n = n; plan[nplan].arg = arg; plan[nplan].fired = 0; nplan++; return 0; }
void sim_arm(void) { opn = 0; armed = 1; }
void sim_disarm(void) { armed = 0; }
long sim_ops(void) { return opn; }
long long sim_clock(void) { return clk_ns + clk_jump; }
int sim_present(void) { return 1; }
void sim_mark(const char *s) { logline("@\t%s", s); }

/* ------------------------------------------------------------------ open */
static int do_open(int dirfd, const char *path, int flags, int mode)
{
    if (!armed) return raw_openat(dirfd, path, flags, mode);
    char abs[PB];
    if (resolve(dirfd, path, abs)) return raw_openat(dirfd, path, flags, mode);
    if (remap_from[0] && !strcmp(abs, remap_from)) {
        snprintf(abs, sizeof abs, "%s", remap_to); path = remap_to; dirfd = AT_FDCWD;
    }
    int wr = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
    if (!in_scope(abs)) {
        if (wr && !exempt(abs)) { escape("open", abs); errno = EROFS; return -1; }
        return raw_openat(dirfd, path, flags, mode);
    }
    pthread_mutex_lock(&mu);
    const char *op = wr ? ((flags & O_CREAT) ? "creat" : "openw") : ((flags & O_DIRECTORY) ? "opendir" : "open");
    struct act a = event(op, abs, NULL, (flags & O_TRUNC) ? 1 : 0);
    int r;
    if (a.err) { errno = a.err; r = -1; }
    else { r = raw_openat(dirfd, path, flags, mode); if (r >= 0) set_fd(r, abs); done(a); }
    pthread_mutex_unlock(&mu);
    return r;
}
#define VAMODE int mode = 0; if (flags & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
int open(const char *p, int flags, ...) { VAMODE return do_open(AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { VAMODE return do_open(AT_FDCWD, p, flags, mode); }
int openat(int d, const char *p, int flags, ...) { VAMODE return do_open(d, p, flags, mode); }
int openat64(int d, const char *p, int flags, ...) { VAMODE return do_open(d, p, flags, mode); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, (int)m); }
int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, (int)m); }

static FILE *do_fopen(const char *p, const char *m, const char *sym)
{
    FILE *(*real)(const char *, const char *) = dlsym(RTLD_NEXT, sym);
    if (armed) {
        char abs[PB];
        if (!resolve(AT_FDCWD, p, abs)) {
            int wr = strpbrk(m, "wa+") != NULL;
            if (!in_scope(abs)) { if (wr && !exempt(abs)) { escape("fopen", abs); errno = EROFS; return NULL; } }
            else { struct act a = event(wr ? "creat" : "open", abs, NULL, 0); if (a.err) { errno = a.err; return NULL; }
                   FILE *f = real(p, m); done(a); return f; }
        }
    }
    return real(p, m);
}
FILE *fopen(const char *p, const char *m) { return do_fopen(p, m, "fopen"); }
FILE *fopen64(const char *p, const char *m) { return do_fopen(p, m, "fopen64"); }

/* ------------------------------------------------------------- read/write */
static int tracked(int fd) { return armed && fd >= 0 && fd < MAXFD && fdpath[fd]; }

static ssize_t do_write(int fd, const void *b, size_t n, int pos, off_t off)
{
#define REALW(cnt) (pos ? syscall(SYS_pwrite64, fd, b, (size_t)(cnt), off) : syscall(SYS_write, fd, b, (size_t)(cnt)))
    if (!tracked(fd)) return REALW(n);
    pthread_mutex_lock(&mu);
    struct act a = event(pos ? "pwrite" : "write", fdpath[fd], NULL, (long)n);
    ssize_t r;
    if (a.err) { errno = a.err; r = -1; }
    else if (a.torn >= 0) { size_t k = n * (size_t)a.torn / 1000; if (k) REALW(k); die(); r = -1; }
    else if (a.shortn >= 0 && n > 1) { size_t k = n * (size_t)a.shortn / 1000; if (k < 1) k = 1; r = REALW(k); }
    else r = REALW(n);
    done(a);
    pthread_mutex_unlock(&mu);
    return r;
}
ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n, 0, 0); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, 1, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, 1, o); }
ssize_t writev(int fd, const struct iovec *v, int c)
{
    if (!tracked(fd)) return syscall(SYS_writev, fd, v, c);
    size_t t = 0; for (int i = 0; i < c; i++) t += v[i].iov_len;
    char *b = malloc(t ? t : 1); size_t k = 0;
    for (int i = 0; i < c; i++) { memcpy(b + k, v[i].iov_base, v[i].iov_len); k += v[i].iov_len; }
    ssize_t r = do_write(fd, b, t, 0, 0); int e = errno; free(b); errno = e; return r;
}
static ssize_t do_read(int fd, void *b, size_t n, int pos, off_t off)
{
#define REALR(cnt) (pos ? syscall(SYS_pread64, fd, b, (size_t)(cnt), off) : syscall(SYS_read, fd, b, (size_t)(cnt)))
    if (!tracked(fd)) return REALR(n);
    pthread_mutex_lock(&mu);
    struct act a = event(pos ? "pread" : "read", fdpath[fd], NULL, 0);
    ssize_t r;
    if (a.err) { errno = a.err; r = -1; }
    else if (a.shortn >= 0 && n > 1) { size_t k = n * (size_t)a.shortn / 1000; if (k < 1) k = 1; if (k > 64) k = 64; r = REALR(k); }
    else r = REALR(n);
    done(a);
    pthread_mutex_unlock(&mu);
    return r;
}
ssize_t read(int fd, void *b, size_t n) { return do_read(fd, b, n, 0, 0); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return do_read(fd, b, n, 1, o); }
ssize_t pread64(int fd, void *b, size_t n, off_t o) { return do_read(fd, b, n, 1, o); }

int close(int fd)
{
    if (!tracked(fd)) { return raw_close(fd); }
    pthread_mutex_lock(&mu);
    struct act a = event("close", fdpath[fd], NULL, 0);
    int r;
    if (a.lost) {   /* write-back failed: the data is gone and close says so */
        struct stat st;
        if (!syscall(SYS_fstat, fd, &st) && S_ISREG(st.st_mode)) syscall(SYS_ftruncate, fd, st.st_size / 2);
        raw_close(fd); errno = EIO; r = -1;
    } else {
        r = raw_close(fd);
        if (a.err) { errno = a.err; r = -1; }
    }
    set_fd(fd, NULL);
    done(a);
    pthread_mutex_unlock(&mu);
    return r;
}
int dup(int fd)
{ int r = (int)syscall(SYS_dup, fd); if (r >= 0 && tracked(fd)) set_fd(r, fdpath[fd]); return r; }
int dup2(int fd, int nfd)
{ int r = (int)syscall(SYS_dup2, fd, nfd); if (r >= 0 && armed) set_fd(r, tracked(fd) ? fdpath[fd] : NULL); return r; }
static int do_fcntl(int fd, int cmd, long arg)
{ int r = (int)syscall(SYS_fcntl, fd, cmd, arg);
  if (r >= 0 && (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) && tracked(fd)) set_fd(r, fdpath[fd]);
  return r; }
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a); }
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a); }

ssize_t sendfile(int o, int i, off_t *off, size_t n)
{ if (tracked(o)) { errno = EINVAL; return -1; } return syscall(SYS_sendfile, o, i, off, n); }
ssize_t sendfile64(int o, int i, off_t *off, size_t n)
{ if (tracked(o)) { errno = EINVAL; return -1; } return syscall(SYS_sendfile, o, i, off, n); }
ssize_t copy_file_range(int i, off_t *io, int o, off_t *oo, size_t n, unsigned f)
{ if (tracked(o)) { errno = EINVAL; return -1; } return syscall(SYS_copy_file_range, i, io, o, oo, n, f); }

static int do_ftruncate(int fd, off_t l)
{
    if (!tracked(fd)) return (int)syscall(SYS_ftruncate, fd, l);
    struct act a = event("truncate", fdpath[fd], NULL, (long)l);
    if (a.err) { errno = a.err; return -1; }
    int r = (int)syscall(SYS_ftruncate, fd, l); done(a); return r;
}
int ftruncate(int fd, off_t l) { return do_ftruncate(fd, l); }
int ftruncate64(int fd, off_t l) { return do_ftruncate(fd, l); }
static int do_fsync(int fd, int data)
{
    if (!tracked(fd)) return (int)syscall(data ? SYS_fdatasync : SYS_fsync, fd);
    struct act a = event("fsync", fdpath[fd], NULL, 0);
    if (a.err) { errno = a.err; return -1; }
    done(a); return 0;
}
int fsync(int fd) { return do_fsync(fd, 0); }
int fdatasync(int fd) { return do_fsync(fd, 1); }

/* ------------------------------------------------------- path operations */
/* generic modifying operation on one path */
#define PATHOP(opname, dirfd, path, call)                                     \
    do {                                                                      \
        if (!armed) return (int)(call);                                       \
        char abs_[PB];                                                        \
        if (resolve(dirfd, path, abs_)) return (int)(call);                   \
        if (!in_scope(abs_)) {                                                \
            if (exempt(abs_)) return (int)(call);                             \
            escape(opname, abs_); errno = EROFS; return -1; }                 \
        pthread_mutex_lock(&mu);                                              \
        struct act a_ = event(opname, abs_, NULL, 0);                         \
        int r_;                                                               \
        if (a_.err) { errno = a_.err; r_ = -1; }                              \
        else { r_ = (int)(call); int e_ = errno; done(a_); errno = e_; }      \
        pthread_mutex_unlock(&mu);                                            \
        return r_;                                                            \
    } while (0)

int mkdir(const char *p, mode_t m) { PATHOP("mkdir", AT_FDCWD, p, syscall(SYS_mkdir, p, m)); }
int mkdirat(int d, const char *p, mode_t m) { PATHOP("mkdir", d, p, syscall(SYS_mkdirat, d, p, m)); }
int rmdir(const char *p) { PATHOP("rmdir", AT_FDCWD, p, syscall(SYS_rmdir, p)); }
int unlink(const char *p) { PATHOP("unlink", AT_FDCWD, p, syscall(SYS_unlink, p)); }
int unlinkat(int d, const char *p, int f)
{ if (f & AT_REMOVEDIR) PATHOP("rmdir", d, p, syscall(SYS_unlinkat, d, p, f));
  PATHOP("unlink", d, p, syscall(SYS_unlinkat, d, p, f)); }
int truncate(const char *p, off_t l) { PATHOP("truncate", AT_FDCWD, p, syscall(SYS_truncate, p, l)); }
int truncate64(const char *p, off_t l) { PATHOP("truncate", AT_FDCWD, p, syscall(SYS_truncate, p, l)); }
int chmod(const char *p, mode_t m) { PATHOP("chmod", AT_FDCWD, p, syscall(SYS_chmod, p, m)); }
int fchmodat(int d, const char *p, mode_t m, int f) { (void)f; PATHOP("chmod", d, p, syscall(SYS_fchmodat, d, p, m)); }
int symlink(const char *t, const char *p) { PATHOP("symlink", AT_FDCWD, p, syscall(SYS_symlink, t, p)); }
int symlinkat(const char *t, int d, const char *p) { PATHOP("symlink", d, p, syscall(SYS_symlinkat, t, d, p)); }
int utimensat(int d, const char *p, const struct timespec ts[2], int f)
{ if (!p) return (int)syscall(SYS_utimensat, d, p, ts, f);
  PATHOP("utimens", d, p, syscall(SYS_utimensat, d, p, ts, f)); }
int chown(const char *p, uid_t u, gid_t g) { PATHOP("chown", AT_FDCWD, p, syscall(SYS_chown, p, u, g)); }
int lchown(const char *p, uid_t u, gid_t g) { PATHOP("chown", AT_FDCWD, p, syscall(SYS_lchown, p, u, g)); }
int fchownat(int d, const char *p, uid_t u, gid_t g, int f) { PATHOP("chown", d, p, syscall(SYS_fchownat, d, p, u, g, f)); }
int mknod(const char *p, mode_t m, dev_t dv) { PATHOP("mknod", AT_FDCWD, p, syscall(SYS_mknod, p, m, dv)); }
int mkfifo(const char *p, mode_t m) { PATHOP("mknod", AT_FDCWD, p, syscall(SYS_mknod, p, m | S_IFIFO, 0)); }

static int do_two(const char *op, int d1, const char *p1, int d2, const char *p2, unsigned flags, int lnk)
{
#define CALL2 (lnk ? syscall(SYS_linkat, d1, p1, d2, p2, flags) : syscall(SYS_renameat2, d1, p1, d2, p2, flags))
    if (!armed) return (int)CALL2;
    char a1[PB], a2[PB];
    if (resolve(d1, p1, a1) || resolve(d2, p2, a2)) return (int)CALL2;
    if (!in_scope(a1) || !in_scope(a2)) {
        if (!in_scope(a1) && !lnk) escape(op, a1);
        if (!in_scope(a2)) escape(op, a2);
        errno = EROFS; return -1;
    }
    pthread_mutex_lock(&mu);
    struct act a = event(op, a1, a2, 0);
    int r;
    if (a.err) { errno = a.err; r = -1; }
    else { r = (int)CALL2; int e = errno; done(a); errno = e; }
    pthread_mutex_unlock(&mu);
    return r;
}
int rename(const char *a, const char *b) { return do_two("rename", AT_FDCWD, a, AT_FDCWD, b, 0, 0); }
int renameat(int d1, const char *a, int d2, const char *b) { return do_two("rename", d1, a, d2, b, 0, 0); }
int renameat2(int d1, const char *a, int d2, const char *b, unsigned f) { return do_two("rename", d1, a, d2, b, f, 0); }
int link(const char *a, const char *b) { return do_two("link", AT_FDCWD, a, AT_FDCWD, b, 0, 1); }
int linkat(int d1, const char *a, int d2, const char *b, int f) { return do_two("link", d1, a, d2, b, (unsigned)f, 1); }

/* ------------------------------------------------------------------ stat */
static int do_stat(int d, const char *p, void *st, int fl)
{
    if (!armed || (p && !p[0])) return (int)syscall(SYS_newfstatat, d, p, st, fl);
    char abs[PB];
    if (resolve(d, p, abs)) return (int)syscall(SYS_newfstatat, d, p, st, fl);
    if (remap_from[0] && !strcmp(abs, remap_from)) { p = remap_to; d = AT_FDCWD; snprintf(abs, sizeof abs, "%s", remap_to); }
    if (!in_scope(abs)) return (int)syscall(SYS_newfstatat, d, p, st, fl);
    pthread_mutex_lock(&mu);
    struct act a = event((fl & AT_SYMLINK_NOFOLLOW) ? "lstat" : "stat", abs, NULL, 0);
    int r;
    if (a.err) { errno = a.err; r = -1; }
    else { r = (int)syscall(SYS_newfstatat, d, p, st, fl); int e = errno; done(a); errno = e; }
    pthread_mutex_unlock(&mu);
    return r;
}
static int do_fstat(int fd, void *st)
{
    if (!tracked(fd)) return (int)syscall(SYS_fstat, fd, st);
    struct act a = event("fstat", fdpath[fd], NULL, 0);
    if (a.err) { errno = a.err; return -1; }
    int r = (int)syscall(SYS_fstat, fd, st); done(a); return r;
}
int stat(const char *p, struct stat *s) { return do_stat(AT_FDCWD, p, s, 0); }
int stat64(const char *p, struct stat64 *s) { return do_stat(AT_FDCWD, p, s, 0); }
int lstat(const char *p, struct stat *s) { return do_stat(AT_FDCWD, p, s, AT_SYMLINK_NOFOLLOW); }
int lstat64(const char *p, struct stat64 *s) { return do_stat(AT_FDCWD, p, s, AT_SYMLINK_NOFOLLOW); }
int fstatat(int d, const char *p, struct stat *s, int f) { return do_stat(d, p, s, f); }
int fstatat64(int d, const char *p, struct stat64 *s, int f) { return do_stat(d, p, s, f); }
int fstat(int fd, struct stat *s) { return do_fstat(fd, s); }
int fstat64(int fd, struct stat64 *s) { return do_fstat(fd, s); }
int __xstat(int v, const char *p, struct stat *s) { (void)v; return do_stat(AT_FDCWD, p, s, 0); }
int __xstat64(int v, const char *p, struct stat64 *s) { (void)v; return do_stat(AT_FDCWD, p, s, 0); }
int __lxstat(int v, const char *p, struct stat *s) { (void)v; return do_stat(AT_FDCWD, p, s, AT_SYMLINK_NOFOLLOW); }
int __lxstat64(int v, const char *p, struct stat64 *s) { (void)v; return do_stat(AT_FDCWD, p, s, AT_SYMLINK_NOFOLLOW); }
int __fxstat(int v, int fd, struct stat *s) { (void)v; return do_fstat(fd, s); }
int __fxstat64(int v, int fd, struct stat64 *s) { (void)v; return do_fstat(fd, s); }
int access(const char *p, int m)
{
    if (!armed) return (int)syscall(SYS_access, p, m);
    char abs[PB];
    if (resolve(AT_FDCWD, p, abs)) return (int)syscall(SYS_access, p, m);
    if (remap_from[0] && !strcmp(abs, remap_from)) { p = remap_to; snprintf(abs, sizeof abs, "%s", remap_to); }
    if (!in_scope(abs)) return (int)syscall(SYS_access, p, m);
    struct act a = event("access", abs, NULL, 0);
    if (a.err) { errno = a.err; return -1; }
    int r = (int)syscall(SYS_access, p, m); int e = errno; done(a); errno = e; return r;
}

/* ----------------------------------------------------------- directories */
struct vdir { DIR *d; struct dirent64 **ents; int n, i; struct vdir *next; };
static struct vdir *vdirs;

static int cmp_ent(const void *a, const void *b)
{ return strcmp((*(struct dirent64 *const *)a)->d_name, (*(struct dirent64 *const *)b)->d_name); }

static void load_dir(DIR *d, const char *abs)
{
    struct dirent64 *(*rd)(DIR *) = dlsym(RTLD_NEXT, "readdir64");
    struct vdir *v = calloc(1, sizeof *v); int cap = 0; struct dirent64 *e;
    v->d = d;
    while ((e = rd(d))) {
        if (v->n == cap) { cap = cap ? cap * 2 : 16; v->ents = realloc(v->ents, sizeof(void *) * (size_t)cap); }
        struct dirent64 *c = calloc(1, sizeof *c); memcpy(c, e, e->d_reclen < sizeof *c ? e->d_reclen : sizeof *c);
        v->ents[v->n++] = c;
    }
    if (v->n) qsort(v->ents, (size_t)v->n, sizeof(void *), cmp_ent);
    if (dir_seed) {
        unsigned long long s = dir_seed;
        for (const char *p = rel(abs); *p; p++) s = s * 1099511628211ULL + (unsigned char)*p;
        s |= 1;
        for (int i = v->n - 1; i > 0; i--) {
            s ^= s << 13; s ^= s >> 7; s ^= s << 17;
            int j = (int)(s % (unsigned)(i + 1));
            struct dirent64 *t = v->ents[i]; v->ents[i] = v->ents[j]; v->ents[j] = t;
        }
    }
    v->next = vdirs; vdirs = v;
}
static struct vdir *find_dir(DIR *d) { for (struct vdir *v = vdirs; v; v = v->next) if (v->d == d) return v; return NULL; }

DIR *opendir(const char *p)
{
    DIR *(*real)(const char *) = dlsym(RTLD_NEXT, "opendir");
    char abs[PB];
    if (!armed || resolve(AT_FDCWD, p, abs) || !in_scope(abs)) return real(p);
    pthread_mutex_lock(&mu);
    struct act a = event("readdir", abs, NULL, 0);
    DIR *d = NULL;
    if (a.err) errno = a.err;
    else { d = real(p); if (d) load_dir(d, abs); done(a); }
    pthread_mutex_unlock(&mu);
    return d;
}
DIR *fdopendir(int fd)
{
    DIR *(*real)(int) = dlsym(RTLD_NEXT, "fdopendir");
    if (!armed) return real(fd);
    char abs[PB]; 
    if (tracked(fd)) snprintf(abs, sizeof abs, "%s", fdpath[fd]);
    else { char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
           ssize_t r = syscall(SYS_readlink, l, abs, sizeof abs - 1); if (r < 0) return real(fd); abs[r] = 0; }
    if (!in_scope(abs)) return real(fd);
    pthread_mutex_lock(&mu);
    struct act a = event("readdir", abs, NULL, 0);
    DIR *d = NULL;
    if (a.err) errno = a.err;
    else { d = real(fd); if (d) load_dir(d, abs); done(a); }
    pthread_mutex_unlock(&mu);
    return d;
}
struct dirent64 *readdir64(DIR *d)
{
    struct vdir *v = vdirs ? find_dir(d) : NULL;
    if (!v) { struct dirent64 *(*rd)(DIR *) = dlsym(RTLD_NEXT, "readdir64"); return rd(d); }
    return v->i < v->n ? v->ents[v->i++] : NULL;
}
struct dirent *readdir(DIR *d) { return (struct dirent *)readdir64(d); }
void rewinddir(DIR *d)
{
    struct vdir *v = vdirs ? find_dir(d) : NULL;
    void (*real)(DIR *) = dlsym(RTLD_NEXT, "rewinddir");
    if (v) v->i = 0;
    real(d);
}
int closedir(DIR *d)
{
    int (*real)(DIR *) = dlsym(RTLD_NEXT, "closedir");
    for (struct vdir **pv = &vdirs; *pv; pv = &(*pv)->next)
        if ((*pv)->d == d) {
            struct vdir *v = *pv; *pv = v->next;
            for (int i = 0; i < v->n; i++) free(v->ents[i]);
            free(v->ents); free(v); break;
        }
    int fd = dirfd(d);
    if (fd >= 0 && fd < MAXFD && fdpath[fd]) set_fd(fd, NULL);
    return real(d);
}

/* ------------------------------------------------------ clock, randomness */
int clock_gettime(clockid_t c, struct timespec *t)
{
    if (!armed || (c != CLOCK_REALTIME && c != CLOCK_MONOTONIC && c != CLOCK_REALTIME_COARSE
                   && c != CLOCK_MONOTONIC_COARSE && c != CLOCK_MONOTONIC_RAW && c != CLOCK_BOOTTIME))
        return (int)syscall(SYS_clock_gettime, c, t);
    clk_ns += clk_step;
    long long v = clk_ns + ((c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? clk_jump : 0);
    if (v < 0) v = 0;
    t->tv_sec = v / 1000000000LL; t->tv_nsec = v % 1000000000LL;
    return 0;
}
int gettimeofday(struct timeval *restrict tv, void *restrict tz)
{
    (void)tz;
    if (!armed) return (int)syscall(SYS_gettimeofday, tv, NULL);
    struct timespec t; clock_gettime(CLOCK_REALTIME, &t);
    tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; return 0;
}
time_t time(time_t *p)
{
    struct timespec t;
    if (!armed) syscall(SYS_clock_gettime, CLOCK_REALTIME, &t); else clock_gettime(CLOCK_REALTIME, &t);
    if (p) *p = t.tv_sec;
    return t.tv_sec;
}
ssize_t getrandom(void *b, size_t n, unsigned f)
{
    if (!armed) return syscall(SYS_getrandom, b, n, f);
    unsigned char *p = b;
    for (size_t i = 0; i < n; i++) {
        rnd_state ^= rnd_state << 13; rnd_state ^= rnd_state >> 7; rnd_state ^= rnd_state << 17;
        p[i] = (unsigned char)(rnd_state >> 24);
    }
    return (ssize_t)n;
}
int nanosleep(const struct timespec *r, struct timespec *m)
{ if (!armed) return (int)syscall(SYS_nanosleep, r, m); clk_ns += r->tv_sec * 1000000000LL + r->tv_nsec; return 0; }
int clock_nanosleep(clockid_t c, int fl, const struct timespec *r, struct timespec *m)
{ if (!armed) return -(int)syscall(SYS_clock_nanosleep, c, fl, r, m);
  if (fl & TIMER_ABSTIME) { long long v = r->tv_sec * 1000000000LL + r->tv_nsec; if (v > clk_ns) clk_ns = v; }
  else clk_ns += r->tv_sec * 1000000000LL + r->tv_nsec;
  return 0; }
