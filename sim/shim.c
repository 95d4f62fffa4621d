/* LD_PRELOAD seam of the simulator.
 *
 * In a process that was armed with sim_arm(), every file operation on a path below the run's scratch root stops
 * and asks the controller (over a socket) what to do; clocks, sleeps, random bytes, process id and directory
 * enumeration order are simulated.  In every other process, and for every other path, all calls go straight through.
 *
 * Verdicts (one line per request, "<verdict> <now_ns>\n"):
 *   g        perform the operation
 *   e<n>     fail with errno n, nothing performed
 *   x<n>     perform the operation, then report errno n (used for close/fsync/rename-like late errors)
 *   p<n>     transfer at most n bytes and report that count (short read/write)
 *   T<n>     write n bytes, then die by SIGKILL (torn write)
 *   k / K    die by SIGKILL before / after performing the operation
 *   I        deliver SIGINT, then perform the operation
 *   c<n>     read: perform, then flip one bit of byte n (mod count) of the data returned
 *   L        lie: report success of a write without performing it (lost write)
 *   d...     payload for a Python-level point
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define MAXFD 4096
static int sim_fd = -1;
static long sim_real_pid = 0;
static int sim_fake_pid = 0;
static char sim_root[PATH_MAX];
static size_t sim_root_len = 0;
static unsigned long long sim_now = 0;
static unsigned long long sim_rng = 1;
static unsigned long long sim_dirseed = 0;
static char *tracked[MAXFD];
static __thread int busy = 0;

#define REAL(ret, name, ...) \
    static ret (*real)(__VA_ARGS__) = NULL; \
    if (!real) real = (ret (*)(__VA_ARGS__)) dlsym(RTLD_NEXT, name)

static int armed(void) { return sim_fd >= 0 && !busy && syscall(SYS_getpid) == sim_real_pid; }

static char sim_base[PATH_MAX];
static void die(void) { syscall(SYS_kill, syscall(SYS_getpid), SIGKILL); for (;;) pause(); }

static ssize_t raw_write(int fd, const void *b, size_t n) { return syscall(SYS_write, fd, b, n); }
static ssize_t raw_read(int fd, void *b, size_t n) { return syscall(SYS_read, fd, b, n); }

static void send_all(const char *b, size_t n) {
    while (n) { ssize_t k = raw_write(sim_fd, b, n); if (k < 0) { if (errno == EINTR) continue; die(); } b += k; n -= k; }
}

static size_t recv_line(char *out, size_t cap) {
    size_t n = 0;
    for (;;) {
        char c; ssize_t k = raw_read(sim_fd, &c, 1);
        if (k < 0 && errno == EINTR) continue;
        if (k <= 0) die();
        if (c == '\n') break;
        if (n + 1 < cap) out[n++] = c;
    }
    out[n] = 0;
    return n;
}

static unsigned long long splitmix(void) {
    unsigned long long z = (sim_rng += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}

/* ---- exported control interface ------------------------------------------------------------------------------ */
void sim_arm(int fd, const char *root, int fake_pid, unsigned long long now, unsigned long long seed,
             unsigned long long dirseed) {
    sim_real_pid = syscall(SYS_getpid); sim_fake_pid = fake_pid; sim_now = now; sim_rng = seed; sim_dirseed = dirseed;
    snprintf(sim_root, sizeof sim_root, "%s", root);
    snprintf(sim_base, sizeof sim_base, "%s", getenv("VSIM_BASE") ? getenv("VSIM_BASE") : ""); sim_root_len = strlen(sim_root); sim_fd = fd;
}
void sim_disarm(void) { sim_fd = -1; }
void sim_pause(int d) { busy += d; }
int sim_is_armed(void) { return sim_fd >= 0; }

struct verdict { char kind; long n; char text[65536]; };

static void ask(const char *kind, const char *path, const char *path2, long info, struct verdict *v) {
    char buf[3 * PATH_MAX]; int e = errno;
    const char *a = path ? path : "", *b = path2 ? path2 : "";
    if (sim_root_len && !strncmp(a, sim_root, sim_root_len)) a += sim_root_len;
    if (sim_root_len && !strncmp(b, sim_root, sim_root_len)) b += sim_root_len;
    int n = snprintf(buf, sizeof buf, "O\t%s\t%s\t%s\t%ld\n", kind, a, b, info);
    for (int i = 0; i < n - 1; i++) if (buf[i] == '\n') buf[i] = '?';
    busy++;
    send_all(buf, n);
    recv_line(v->text, sizeof v->text);
    busy--;
    char *sp = strrchr(v->text, ' ');
    if (sp) { sim_now = strtoull(sp + 1, NULL, 10); *sp = 0; }
    v->kind = v->text[0]; v->n = strtol(v->text + 1, NULL, 10);
    errno = e;
    if (v->kind == 'k') die();
    if (v->kind == 'I') { syscall(SYS_kill, syscall(SYS_getpid), SIGINT); v->kind = 'g'; }
}

/* Python-level point: returns the verdict text */
int sim_point(const char *kind, const char *detail, long info, char *out, size_t cap) {
    struct verdict *v = malloc(sizeof *v);
    ask(kind, detail, NULL, info, v);
    snprintf(out, cap, "%s", v->text);
    int r = v->kind; free(v);
    return r;
}
int sim_send_result(const char *json, size_t n) {
    busy++; send_all("R\t", 2); send_all(json, n); send_all("\n", 1); busy--; return 0;
}
unsigned long long sim_time(void) { return sim_now; }

/* ---- path helpers ---------------------------------------------------------------------------------------------- */
static int under_root(const char *p) {
    return sim_root_len && !strncmp(p, sim_root, sim_root_len) && (p[sim_root_len] == '/' || p[sim_root_len] == 0);
}
/* lexical normalisation: relative -> cwd or dirfd; "." and ".." and "//" folded */
static int resolve(int dirfd, const char *p, char *out) {
    char tmp[2 * PATH_MAX];
    if (!p) return 0;
    if (p[0] == '/') snprintf(tmp, sizeof tmp, "%s", p);
    else {
        char base[PATH_MAX];
        if (dirfd == AT_FDCWD) { if (syscall(SYS_getcwd, base, sizeof base) < 0) return 0; }
        else if (dirfd >= 0 && dirfd < MAXFD && tracked[dirfd]) snprintf(base, sizeof base, "%s", tracked[dirfd]);
        else {
            char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
            ssize_t n = syscall(SYS_readlink, l, base, sizeof base - 1); if (n < 0) return 0; base[n] = 0;
        }
        snprintf(tmp, sizeof tmp, "%s/%s", base, p);
    }
    size_t o = 0; const char *s = tmp;
    while (*s) {
        while (*s == '/') s++;
        if (!*s) break;
        const char *e = s; while (*e && *e != '/') e++;
        size_t n = e - s;
        if (n == 1 && s[0] == '.') {}
        else if (n == 2 && s[0] == '.' && s[1] == '.') { while (o && out[--o] != '/') {} }
        else { if (o + n + 2 > PATH_MAX) return 0; out[o++] = '/'; memcpy(out + o, s, n); o += n; }
        s = e;
    }
    if (!o) out[o++] = '/';
    out[o] = 0;
    return under_root(out);
}
/* containment: a simulated process can destroy nothing outside the check's own scratch directories */
static char sim_base[PATH_MAX];
static int below(const char *p, const char *b) { size_t n = strlen(b); return n && !strncmp(p, b, n) && (p[n] == '/' || !p[n]); }
static int escapes(int dirfd, const char *p) {
    char full[PATH_MAX]; struct verdict v;
    full[0] = 0;
    if (!armed() || !p || resolve(dirfd, p, full) || !full[0] || below(full, sim_base) || below(full, "/dev") || below(full, "/proc/self")) return 0;
    ask("escape", full, NULL, 0, &v);
    return 1;
}
static void track(int fd, const char *p) {
    if (fd >= 0 && fd < MAXFD) { free(tracked[fd]); tracked[fd] = p ? strdup(p) : NULL; }
}
static const char *tr(int fd) { return fd >= 0 && fd < MAXFD ? tracked[fd] : NULL; }

#define FAILIF(v) if ((v).kind == 'e') { errno = (int)(v).n; return -1; }
#define LATE(v, r) do { int _k = (v).kind; if (_k == 'K') die(); if (_k == 'x') { errno = (int)(v).n; return -1; } } while (0)

/* ---- open family --------------------------------------------------------------------------------------------------- */
static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
    char full[PATH_MAX];
    if (armed() && resolve(dirfd, path, full)) {
        struct verdict v;
        const char *kind = (flags & O_DIRECTORY) ? "opendirfd" : (flags & O_ACCMODE) == O_RDONLY ? "open_r"
                         : (flags & O_TRUNC) ? "open_trunc" : (flags & O_EXCL) ? "open_excl" : "open_w";
        ask(kind, full, NULL, flags & (O_ACCMODE | O_CREAT | O_TRUNC | O_EXCL | O_APPEND), &v);
        FAILIF(v)
        int r = syscall(SYS_openat, dirfd, path, flags, mode);
        if (v.kind == 'K') die();
        if (r >= 0) track(r, full);
        return r;
    }
    if ((flags & O_TRUNC) && (flags & O_ACCMODE) != O_RDONLY && escapes(dirfd, path)) { errno = EPERM; return -1; }
    return syscall(SYS_openat, dirfd, path, flags, mode);
}
#define GETMODE mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *path, int flags, ...) { GETMODE return do_open(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { GETMODE return do_open(AT_FDCWD, path, flags | O_LARGEFILE, mode); }
int openat(int d, const char *path, int flags, ...) { GETMODE return do_open(d, path, flags, mode); }
int openat64(int d, const char *path, int flags, ...) { GETMODE return do_open(d, path, flags | O_LARGEFILE, mode); }
int creat(const char *path, mode_t mode) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int creat64(const char *path, mode_t mode) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }

int close(int fd) {
    const char *p = armed() ? tr(fd) : NULL;
    if (p) {
        struct verdict v; char keep[PATH_MAX]; snprintf(keep, sizeof keep, "%s", p);
        ask("close", keep, NULL, 0, &v);
        track(fd, NULL);
        int r = syscall(SYS_close, fd);
        if (v.kind == 'e' || v.kind == 'x') { errno = (int)v.n; return -1; }
        if (v.kind == 'K') die();
        return r;
    }
    return syscall(SYS_close, fd);
}
int dup(int fd) { int r = syscall(SYS_dup, fd); if (r >= 0 && armed() && tr(fd)) track(r, tr(fd)); return r; }
int dup2(int a, int b) { int r = syscall(SYS_dup2, a, b); if (r >= 0 && armed() && a != b) track(b, tr(a)); return r; }
int dup3(int a, int b, int f) { int r = syscall(SYS_dup3, a, b, f); if (r >= 0 && armed()) track(b, tr(a)); return r; }
static int do_fcntl(int fd, int cmd, long arg) {
    int r = syscall(SYS_fcntl, fd, cmd, arg);
    if (r >= 0 && (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) && armed() && tr(fd)) track(r, tr(fd));
    return r;
}
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); 
    if (cmd == F_SETLKW && armed() && tr(fd)) { for (;;) { struct verdict v; ask("lock", tr(fd), NULL, 0, &v); FAILIF(v)
        int r = syscall(SYS_fcntl, fd, F_SETLK, a); if (r == 0 || (errno != EAGAIN && errno != EACCES)) return r; } }
    return do_fcntl(fd, cmd, a); }
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap);
    if (cmd == F_SETLKW && armed() && tr(fd)) { for (;;) { struct verdict v; ask("lock", tr(fd), NULL, 0, &v); FAILIF(v)
        int r = syscall(SYS_fcntl, fd, F_SETLK, a); if (r == 0 || (errno != EAGAIN && errno != EACCES)) return r; } }
    return do_fcntl(fd, cmd, a); }
int flock(int fd, int op) {
    if (armed() && tr(fd)) {
        for (;;) {   /* a blocked lock is a parked process: the scheduler decides when it tries again */
            struct verdict v; ask("lock", tr(fd), NULL, op, &v); FAILIF(v)
            int r = syscall(SYS_flock, fd, op | LOCK_NB);
            if (r == 0 || (op & LOCK_NB) || errno != EWOULDBLOCK) return r;
        }
    }
    return syscall(SYS_flock, fd, op);
}

/* ---- data ------------------------------------------------------------------------------------------------------------ */
ssize_t write(int fd, const void *b, size_t n) {
    const char *p = armed() ? tr(fd) : NULL;
    if (p) {
        struct verdict v; ask("write", p, NULL, (long)n, &v);
        FAILIF(v)
        if (v.kind == 'L') return n;
        size_t m = n;
        if ((v.kind == 'p' || v.kind == 'T') && (size_t)v.n < n) m = v.n;
        ssize_t r = m || v.kind != 'T' ? raw_write(fd, b, m) : 0;
        if (v.kind == 'T' || v.kind == 'K') die();
        return r;
    }
    return raw_write(fd, b, n);
}
ssize_t writev(int fd, const struct iovec *iov, int c) {
    const char *p = armed() ? tr(fd) : NULL;
    if (p) { ssize_t tot = 0; for (int i = 0; i < c; i++) { ssize_t r = write(fd, iov[i].iov_base, iov[i].iov_len);
             if (r < 0) return tot ? tot : r; tot += r; if ((size_t)r < iov[i].iov_len) break; } return tot; }
    return syscall(SYS_writev, fd, iov, c);
}
static ssize_t do_pwrite(int fd, const void *b, size_t n, off_t off) {
    const char *p = armed() ? tr(fd) : NULL;
    if (p) {
        struct verdict v; ask("pwrite", p, NULL, (long)n, &v);
        FAILIF(v)
        if (v.kind == 'L') return n;
        size_t m = n;
        if ((v.kind == 'p' || v.kind == 'T') && (size_t)v.n < n) m = v.n;
        ssize_t r = m ? syscall(SYS_pwrite64, fd, b, m, off) : 0;
        if (v.kind == 'T' || v.kind == 'K') die();
        return r;
    }
    return syscall(SYS_pwrite64, fd, b, n, off);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_pwrite(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return do_pwrite(fd, b, n, o); }

static void flip(struct verdict *v, void *b, ssize_t r) { if (v->kind == 'c' && r > 0) ((unsigned char *)b)[v->n % r] ^= 1; }
ssize_t read(int fd, void *b, size_t n) {
    const char *p = armed() ? tr(fd) : NULL;
    if (p) {
        struct verdict v; ask("read", p, NULL, (long)n, &v);
        FAILIF(v)
        if (v.kind == 'p' && (size_t)v.n < n && v.n > 0) n = v.n;
        ssize_t r = raw_read(fd, b, n); flip(&v, b, r);
        if (v.kind == 'K') die();
        return r;
    }
    return raw_read(fd, b, n);
}
static ssize_t do_pread(int fd, void *b, size_t n, off_t o) {
    const char *p = armed() ? tr(fd) : NULL;
    if (p) {
        struct verdict v; ask("pread", p, NULL, (long)n, &v);
        FAILIF(v)
        if (v.kind == 'p' && (size_t)v.n < n && v.n > 0) n = v.n;
        ssize_t r = syscall(SYS_pread64, fd, b, n, o); flip(&v, b, r);
        if (v.kind == 'K') die();
        return r;
    }
    return syscall(SYS_pread64, fd, b, n, o);
}
ssize_t pread(int fd, void *b, size_t n, off_t o) { return do_pread(fd, b, n, o); }
ssize_t pread64(int fd, void *b, size_t n, off_t o) { return do_pread(fd, b, n, o); }
static ssize_t do_sendfile(int out, int in, off_t *o, size_t n) {
    const char *p = armed() ? tr(out) : NULL;
    if (p) {
        struct verdict v; ask("write", p, tr(in), (long)n, &v);
        FAILIF(v)
        if (v.kind == 'L') return n;
        if (v.kind == 'p' || v.kind == 'T') n = v.n;
        ssize_t r = syscall(SYS_sendfile, out, in, o, n);
        if (v.kind == 'T' || v.kind == 'K') die();
        return r;
    }
    return syscall(SYS_sendfile, out, in, o, n);
}
ssize_t sendfile(int out, int in, off_t *o, size_t n) { return do_sendfile(out, in, o, n); }
ssize_t sendfile64(int out, int in, off_t *o, size_t n) { return do_sendfile(out, in, o, n); }
ssize_t copy_file_range(int in, off64_t *io, int out, off64_t *oo, size_t n, unsigned f) {
    if (armed() && tr(out)) { errno = EXDEV; return -1; }
    return syscall(SYS_copy_file_range, in, io, out, oo, n, f);
}
#define FDOP(name, sys, kindname, ARGS, ...) \
    int name ARGS { const char *p = armed() ? tr(fd) : NULL; \
        if (p) { struct verdict v; ask(kindname, p, NULL, 0, &v); FAILIF(v) int r = syscall(sys, __VA_ARGS__); LATE(v, r); return r; } \
        return syscall(sys, __VA_ARGS__); }
FDOP(fsync, SYS_fsync, "fsync", (int fd), fd)
FDOP(fdatasync, SYS_fdatasync, "fsync", (int fd), fd)
FDOP(ftruncate, SYS_ftruncate, "truncate", (int fd, off_t n), fd, n)
FDOP(ftruncate64, SYS_ftruncate, "truncate", (int fd, off64_t n), fd, n)

/* ---- names -------------------------------------------------------------------------------------------------------- */
#define PATHOP(name, kindname, ARGS, DFD, PATH, SYSCALL) \
    int name ARGS { char full[PATH_MAX]; \
        if (strcmp(kindname, "stat") && escapes(DFD, PATH)) { errno = EPERM; return -1; } \
        if (armed() && resolve(DFD, PATH, full)) { struct verdict v; ask(kindname, full, NULL, 0, &v); FAILIF(v) \
            int r = SYSCALL; LATE(v, r); return r; } \
        return SYSCALL; }
PATHOP(unlink, "unlink", (const char *p), AT_FDCWD, p, syscall(SYS_unlink, p))
PATHOP(unlinkat, (f & AT_REMOVEDIR) ? "rmdir" : "unlink", (int d, const char *p, int f), d, p, syscall(SYS_unlinkat, d, p, f))
PATHOP(rmdir, "rmdir", (const char *p), AT_FDCWD, p, syscall(SYS_rmdir, p))
PATHOP(mkdir, "mkdir", (const char *p, mode_t m), AT_FDCWD, p, syscall(SYS_mkdir, p, m))
PATHOP(mkdirat, "mkdir", (int d, const char *p, mode_t m), d, p, syscall(SYS_mkdirat, d, p, m))
PATHOP(truncate, "truncate", (const char *p, off_t n), AT_FDCWD, p, syscall(SYS_truncate, p, n))
PATHOP(chmod, "chmod", (const char *p, mode_t m), AT_FDCWD, p, syscall(SYS_chmod, p, m))
PATHOP(access, "stat", (const char *p, int m), AT_FDCWD, p, syscall(SYS_access, p, m))
PATHOP(faccessat, "stat", (int d, const char *p, int m, int f), d, p, syscall(SYS_faccessat, d, p, m, f))

static int do_rename(int d1, const char *a, int d2, const char *b, unsigned f) {
    char fa[PATH_MAX], fb[PATH_MAX];
    if (armed()) {
        if (escapes(d1, a) || escapes(d2, b)) { errno = EPERM; return -1; }
        int ra = resolve(d1, a, fa), rb = resolve(d2, b, fb);
        if (ra || rb) {
            struct verdict v; ask("rename", fa, fb, 0, &v);
            FAILIF(v)
            int r = syscall(SYS_renameat2, d1, a, d2, b, f);
            LATE(v, r);
            return r;
        }
    }
    return syscall(SYS_renameat2, d1, a, d2, b, f);
}
int rename(const char *a, const char *b) { return do_rename(AT_FDCWD, a, AT_FDCWD, b, 0); }
int renameat(int d1, const char *a, int d2, const char *b) { return do_rename(d1, a, d2, b, 0); }
int renameat2(int d1, const char *a, int d2, const char *b, unsigned f) { return do_rename(d1, a, d2, b, f); }
int link(const char *a, const char *b) {
    char fb[PATH_MAX];
    if (armed() && resolve(AT_FDCWD, b, fb)) { struct verdict v; ask("link", fb, NULL, 0, &v); FAILIF(v)
        int r = syscall(SYS_link, a, b); LATE(v, r); return r; }
    return syscall(SYS_link, a, b);
}

/* stat family: scheduling points only */
#define STATPOINT(dfd, path) char full[PATH_MAX]; if (armed() && resolve(dfd, path, full)) { struct verdict v; ask("stat", full, NULL, 0, &v); FAILIF(v) }
int stat(const char *p, struct stat *s) { STATPOINT(AT_FDCWD, p) REAL(int, "stat", const char *, struct stat *); return real(p, s); }
int stat64(const char *p, struct stat64 *s) { STATPOINT(AT_FDCWD, p) REAL(int, "stat64", const char *, struct stat64 *); return real(p, s); }
int lstat(const char *p, struct stat *s) { STATPOINT(AT_FDCWD, p) REAL(int, "lstat", const char *, struct stat *); return real(p, s); }
int lstat64(const char *p, struct stat64 *s) { STATPOINT(AT_FDCWD, p) REAL(int, "lstat64", const char *, struct stat64 *); return real(p, s); }
int fstatat(int d, const char *p, struct stat *s, int f) { if (p && *p) { STATPOINT(d, p) } REAL(int, "fstatat", int, const char *, struct stat *, int); return real(d, p, s, f); }
int fstatat64(int d, const char *p, struct stat64 *s, int f) { if (p && *p) { STATPOINT(d, p) } REAL(int, "fstatat64", int, const char *, struct stat64 *, int); return real(d, p, s, f); }

/* ---- directory enumeration: sorted, then permuted by the run's seed ------------------------------------------------- */
struct simdir { DIR *d; struct dirent64 *e; size_t n, i; int loaded; struct simdir *next; };
static struct simdir *dirs = NULL;
static struct simdir *finddir(DIR *d) { for (struct simdir *s = dirs; s; s = s->next) if (s->d == d) return s; return NULL; }
static int cmpname(const void *a, const void *b) { return strcmp(((struct dirent64 *)a)->d_name, ((struct dirent64 *)b)->d_name); }
static void adddir(DIR *d) { struct simdir *s = calloc(1, sizeof *s); s->d = d; s->next = dirs; dirs = s; }
DIR *opendir(const char *p) {
    REAL(DIR *, "opendir", const char *);
    char full[PATH_MAX];
    if (armed() && resolve(AT_FDCWD, p, full)) {
        struct verdict v; ask("opendir", full, NULL, 0, &v);
        if (v.kind == 'e') { errno = (int)v.n; return NULL; }
        DIR *d = real(p); if (d) adddir(d); return d;
    }
    return real(p);
}
DIR *fdopendir(int fd) {
    REAL(DIR *, "fdopendir", int);
    const char *p = armed() ? tr(fd) : NULL;
    if (p) {
        struct verdict v; ask("opendir", p, NULL, 0, &v);
        if (v.kind == 'e') { errno = (int)v.n; return NULL; }
        DIR *d = real(fd); if (d) adddir(d); return d;
    }
    return real(fd);
}
struct dirent64 *readdir64(DIR *d) {
    REAL(struct dirent64 *, "readdir64", DIR *);
    struct simdir *s = dirs ? finddir(d) : NULL;
    if (!s) return real(d);
    if (!s->loaded) {
        size_t cap = 0; struct dirent64 *e; errno = 0;
        while ((e = real(d))) {
            if (s->n == cap) { cap = cap ? 2 * cap : 16; s->e = realloc(s->e, cap * sizeof *s->e); }
            memcpy(&s->e[s->n], e, e->d_reclen < sizeof *e ? e->d_reclen : sizeof *e); s->n++;
        }
        qsort(s->e, s->n, sizeof *s->e, cmpname);
        if (sim_dirseed) {
            unsigned long long keep = sim_rng; sim_rng = sim_dirseed;
            for (size_t i = 0; i < s->n; i++) for (char *c = s->e[i].d_name; *c; c++) sim_rng = sim_rng * 31 + (unsigned char)*c;
            for (size_t i = s->n; i > 1; i--) { size_t j = splitmix() % i; struct dirent64 t = s->e[i-1]; s->e[i-1] = s->e[j]; s->e[j] = t; }
            sim_rng = keep;
        }
        s->loaded = 1;
    }
    return s->i < s->n ? &s->e[s->i++] : NULL;
}
struct dirent *readdir(DIR *d) { return (struct dirent *)readdir64(d); }
void rewinddir(DIR *d) {
    static void (*real)(DIR *) = NULL; if (!real) real = (void (*)(DIR *)) dlsym(RTLD_NEXT, "rewinddir");
    struct simdir *s = dirs ? finddir(d) : NULL; if (s) { s->n = s->i = 0; s->loaded = 0; }
    real(d);
}
int closedir(DIR *d) {
    REAL(int, "closedir", DIR *);
    struct simdir **q = &dirs;
    for (; *q; q = &(*q)->next) if ((*q)->d == d) { struct simdir *s = *q; *q = s->next; free(s->e); free(s); break; }
    int fd = dirfd(d);
    if (fd >= 0 && tr(fd)) track(fd, NULL);
    return real(d);
}

/* ---- clocks, randomness, identity -------------------------------------------------------------------------------------- */
static void setts(struct timespec *t) { t->tv_sec = sim_now / 1000000000ULL; t->tv_nsec = sim_now % 1000000000ULL; }
int clock_gettime(clockid_t c, struct timespec *t) {
    if (armed() && (c == CLOCK_REALTIME || c == CLOCK_MONOTONIC || c == CLOCK_REALTIME_COARSE || c == CLOCK_BOOTTIME)) { setts(t); return 0; }
    return syscall(SYS_clock_gettime, c, t);
}
time_t time(time_t *t) {
    if (armed()) { time_t r = sim_now / 1000000000ULL; if (t) *t = r; return r; }
    return syscall(SYS_time, t);
}
int gettimeofday(struct timeval *tv, void *tz) {
    if (armed()) { tv->tv_sec = sim_now / 1000000000ULL; tv->tv_usec = (sim_now / 1000) % 1000000; return 0; }
    return syscall(SYS_gettimeofday, tv, tz);
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec *q, struct timespec *rem) {
    if (armed()) {
        unsigned long long w = q->tv_sec * 1000000000ULL + q->tv_nsec;
        if (flags & TIMER_ABSTIME) w = w > sim_now ? w - sim_now : 0;
        struct verdict v; ask("sleep", "", NULL, (long)w, &v);
        return 0;
    }
    int r = syscall(SYS_clock_nanosleep, c, flags, q, rem);
    return r < 0 ? errno : 0;
}
int nanosleep(const struct timespec *q, struct timespec *rem) {
    if (armed()) { struct verdict v; ask("sleep", "", NULL, (long)(q->tv_sec * 1000000000LL + q->tv_nsec), &v); return 0; }
    return syscall(SYS_nanosleep, q, rem);
}
ssize_t getrandom(void *b, size_t n, unsigned f) {
    if (armed()) { unsigned char *p = b; for (size_t i = 0; i < n; i++) p[i] = (unsigned char)(splitmix() >> 24); return n; }
    return syscall(SYS_getrandom, b, n, f);
}
pid_t getpid(void) {
    if (sim_fake_pid && armed()) return sim_fake_pid;
    return syscall(SYS_getpid);
}
