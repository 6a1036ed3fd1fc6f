/* Decides the file I/O of one process (csv2bin for C19, experimenter for C21). Loaded with LD_PRELOAD; only files below
 * CSVSIM_DIR are touched. CSVSIM = entries separated by ';': "<kind><n>=<act>" for the n-th call (0-based) of a kind,
 * "<kind>*=<act>" for all others; kinds r(ead) w(rite) o(pen) m(kdir) l(seek) s(tat) d(irectory
 * listing); acts s<k> (at most k bytes), e<errno>,
 * E<errno> (this call and all later ones), z (write returns 0), x (the process is killed before the call), f<k> (every
 * other call is interrupted, the rest at most k bytes). With CSVSIM_STAT, only paths with this part are
 * looked at through kind s. Counts go to CSVSIM_LOG. With CSVSIM_CLOCK set, the clock is a
 * counter and random numbers are fixed. */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define MAXE 4096
static struct { char kind; long n; char act; long arg; } E[MAXE];
static int nE, ready;
static const char *dir, *logp, *statdir;
static size_t dirlen;
#define NK 7
static long calls[NK];
static int dead[NK], ticking;
static long n_short, n_err, n_intr, n_zero;
static unsigned char tracked[1024];
static unsigned long trace = 1469598103934665603UL;
static const char kinds[] = "rwomlsd";
static void finish(void);

static void setup(void) {
    if (ready) return;
    ready = 1;
    dir = getenv("CSVSIM_DIR");
    logp = getenv("CSVSIM_LOG");
    statdir = getenv("CSVSIM_STAT");
    dirlen = dir ? strlen(dir) : 0;
    ticking = getenv("CSVSIM_CLOCK") != 0;
    const char *s = getenv("CSVSIM");
    while (s && *s && nE < MAXE) {
        E[nE].kind = *s++;
        if (*s == '*') { E[nE].n = -1; s++; } else E[nE].n = strtol(s, (char **)&s, 10);
        if (*s == '=') s++;
        E[nE].act = *s ? *s++ : 0;
        E[nE].arg = strtol(s, (char **)&s, 10);
        nE++;
        while (*s && *s != ';') s++;
        if (*s == ';') s++;
    }
}
static int mine(const char *p) { setup(); return dir && p && !strncmp(p, dir, dirlen); }
static int is_tracked(int fd) { return fd >= 0 && fd < 1024 && tracked[fd]; }
/* returns -1 to fail with errno set, 0 to go on; may lower *n; sets *zero */
static int decide(int k, size_t *n, int *zero) {
    setup();
    long i = calls[k]++;
    trace = (trace ^ (unsigned long)(k * 1000003 + (n ? *n : 0))) * 1099511628211UL;
    if (i > 3000000) { finish(); syscall(SYS_exit_group, 97); }
    if (dead[k]) { n_err++; errno = dead[k]; return -1; }
    int best = -1;
    for (int j = 0; j < nE; j++)
        if (E[j].kind == kinds[k] && (E[j].n == i || (E[j].n == -1 && best < 0))) best = j;
    if (best < 0) return 0;
    switch (E[best].act) {
    case 's':
        if (n && *n > (size_t)E[best].arg && E[best].arg > 0) { *n = E[best].arg; n_short++; }
        return 0;
    case 'f': /* flaky: every other call is interrupted */
        if (i % 2 == 0) { n_intr++; errno = EINTR; return -1; }
        if (n && *n > (size_t)E[best].arg && E[best].arg > 0) { *n = E[best].arg; n_short++; }
        return 0;
    case 'E': dead[k] = E[best].arg; /* fall through */
    case 'e':
        if (E[best].arg == EINTR) n_intr++; else n_err++;
        errno = E[best].arg;
        return -1;
    case 'x': finish(); syscall(SYS_exit_group, 98); return -1;
    case 'z': if (zero) { *zero = 1; n_zero++; } return 0;
    }
    return 0;
}
static void finish(void) {
    if (!logp) return;
    char b[400];
    int l = snprintf(b, sizeof b, "%ld %ld %ld %ld %ld %ld %ld %ld %ld %ld %ld %lu\n", calls[0], calls[1], calls[2], calls[3], calls[4], calls[5], calls[6], n_short, n_err, n_intr, n_zero, trace);
    int fd = syscall(SYS_openat, AT_FDCWD, logp, O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd >= 0) { long r = syscall(SYS_write, fd, b, l); (void)r; syscall(SYS_close, fd); }
    logp = 0;
}
__attribute__((destructor)) static void bye(void) { finish(); }

static int do_open(int at, const char *p, int flags, mode_t mode) {
    /* the page cache of the machine is none of a simulated process's business */
    if (p && !strcmp(p, "/proc/sys/vm/drop_caches")) p = "/dev/null";
    int m = mine(p) && !(flags & O_DIRECTORY);
    if (m && decide(2, 0, 0)) return -1;
    int fd = syscall(SYS_openat, at, p, flags, mode);
    if (fd >= 0 && fd < 1024) tracked[fd] = m;
    return fd;
}
int open(const char *p, int flags, ...) { va_list a; va_start(a, flags); mode_t m = va_arg(a, int); va_end(a); return do_open(AT_FDCWD, p, flags, m); }
int open64(const char *p, int flags, ...) { va_list a; va_start(a, flags); mode_t m = va_arg(a, int); va_end(a); return do_open(AT_FDCWD, p, flags | O_LARGEFILE, m); }
int openat(int at, const char *p, int flags, ...) { va_list a; va_start(a, flags); mode_t m = va_arg(a, int); va_end(a); return do_open(at, p, flags, m); }
int openat64(int at, const char *p, int flags, ...) { va_list a; va_start(a, flags); mode_t m = va_arg(a, int); va_end(a); return do_open(at, p, flags | O_LARGEFILE, m); }
int close(int fd) { if (fd >= 0 && fd < 1024) tracked[fd] = 0; return syscall(SYS_close, fd); }
ssize_t read(int fd, void *b, size_t n) {
    if (is_tracked(fd) && n) { if (decide(0, &n, 0)) return -1; }
    return syscall(SYS_read, fd, b, n);
}
ssize_t readv(int fd, const struct iovec *v, int c) {
    for (int i = 0; is_tracked(fd) && i < c; i++) if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len);
    return syscall(SYS_readv, fd, v, c);
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
    if (is_tracked(fd) && n) { if (decide(0, &n, 0)) return -1; }
    return syscall(SYS_pread64, fd, b, n, o);
}
ssize_t write(int fd, const void *b, size_t n) {
    int z = 0;
    if (is_tracked(fd) && n) { if (decide(1, &n, &z)) return -1; if (z) return 0; }
    return syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    for (int i = 0; is_tracked(fd) && i < c; i++) if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
    return syscall(SYS_writev, fd, v, c);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    int z = 0;
    if (is_tracked(fd) && n) { if (decide(1, &n, &z)) return -1; if (z) return 0; }
    return syscall(SYS_pwrite64, fd, b, n, o);
}
/* kernel-side copies would bypass the decisions: not available here */
ssize_t copy_file_range(int a, off64_t *b, int c, off64_t *d, size_t e, unsigned f) { (void)a; (void)b; (void)c; (void)d; (void)e; (void)f; errno = ENOSYS; return -1; }
ssize_t sendfile64(int a, int b, off64_t *c, size_t d) { (void)a; (void)b; (void)c; (void)d; errno = ENOSYS; return -1; }
ssize_t splice(int a, off64_t *b, int c, off64_t *d, size_t e, unsigned f) { (void)a; (void)b; (void)c; (void)d; (void)e; (void)f; errno = EINVAL; return -1; }
int mkdir(const char *p, mode_t m) {
    if (mine(p) && decide(3, 0, 0)) return -1;
    return syscall(SYS_mkdirat, AT_FDCWD, p, m);
}
off64_t lseek64(int fd, off64_t o, int w) {
    if (is_tracked(fd) && decide(4, 0, 0)) return -1;
    return syscall(SYS_lseek, fd, o, w);
}
off_t lseek(int fd, off_t o, int w) { return lseek64(fd, o, w); }
/* listings come in the order of names, whatever the file system */
static struct { DIR *d; struct dirent64 *e; long n, at; } listed[64];
static int by_name(const void *a, const void *b) { return strcmp(((const struct dirent64 *)a)->d_name, ((const struct dirent64 *)b)->d_name); }
DIR *opendir(const char *p) {
    static DIR *(*real)(const char *);
    static struct dirent64 *(*next)(DIR *);
    if (!real) real = (DIR * (*)(const char *)) dlsym(RTLD_NEXT, "opendir"), next = (struct dirent64 * (*)(DIR *)) dlsym(RTLD_NEXT, "readdir64");
    int m = mine(p);
    if (m && decide(6, 0, 0)) return 0;
    DIR *d = real(p);
    for (int i = 0; d && m && i < 64; i++) if (!listed[i].d) {
        long n = 0, cap = 16;
        struct dirent64 *e = malloc(cap * sizeof *e), *x;
        while (e && (x = next(d))) {
            if (n == cap && !(e = realloc(e, (cap *= 2) * sizeof *e))) break;
            memcpy(&e[n++], x, x->d_reclen < sizeof *e ? x->d_reclen : sizeof *e);
        }
        if (!e) abort();
        qsort(e, n, sizeof *e, by_name);
        listed[i].d = d; listed[i].e = e; listed[i].n = n; listed[i].at = 0;
        break;
    }
    return d;
}
struct dirent64 *readdir64(DIR *d) {
    static struct dirent64 *(*real)(DIR *);
    if (!real) real = (struct dirent64 * (*)(DIR *)) dlsym(RTLD_NEXT, "readdir64");
    for (int i = 0; i < 64; i++) if (listed[i].d == d) {
        if (decide(6, 0, 0)) return 0;
        return listed[i].at < listed[i].n ? &listed[i].e[listed[i].at++] : 0;
    }
    return real(d);
}
int closedir(DIR *d) {
    static int (*real)(DIR *);
    if (!real) real = (int (*)(DIR *)) dlsym(RTLD_NEXT, "closedir");
    for (int i = 0; i < 64; i++) if (listed[i].d == d) { free(listed[i].e); listed[i].d = 0; }
    return real(d);
}
/* a copy of a file handle is simulated like the original */
static int do_fcntl(int fd, int cmd, long arg) {
    int r = syscall(SYS_fcntl, fd, cmd, arg);
    if ((cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) && r >= 0 && r < 1024) tracked[r] = is_tracked(fd);
    return r;
}
int fcntl(int fd, int cmd, ...) { va_list a; va_start(a, cmd); long x = va_arg(a, long); va_end(a); return do_fcntl(fd, cmd, x); }
int fcntl64(int fd, int cmd, ...) { va_list a; va_start(a, cmd); long x = va_arg(a, long); va_end(a); return do_fcntl(fd, cmd, x); }
void sync(void) {}
int clock_gettime(clockid_t c, struct timespec *t) {
    static long ticks;
    setup();
    if (!ticking) return syscall(SYS_clock_gettime, c, t);
    ticks++;
    t->tv_sec = 1700000000 + ticks / 1000;
    t->tv_nsec = ticks % 1000 * 1000000;
    return 0;
}
ssize_t getrandom(void *b, size_t n, unsigned f) {
    setup();
    if (!ticking) return syscall(SYS_getrandom, b, n, f);
    memset(b, 7, n);
    return n;
}
int statx(int at, const char *restrict p, int f, unsigned m, struct statx *restrict x) {
    setup();
    const char *volatile q = p; /* declared nonnull, but std probes with null */
    if (q && ((f & AT_EMPTY_PATH) && !*q ? is_tracked(at) : mine(q) && (!statdir || strstr(q, statdir))) && decide(5, 0, 0)) return -1;
    int r = syscall(SYS_statx, at, p, f, m, x);
    if (ticking && r == 0) { /* file times of the simulated clock: always the same */
        struct statx_timestamp t = {.tv_sec = 1700000000};
        x->stx_atime = x->stx_btime = x->stx_ctime = x->stx_mtime = t;
    }
    return r;
}
/* the progress bars ask tput for the size of the terminal: there is none, and no other process either */
int posix_spawnp(pid_t *p, const char *f, const void *a, const void *b, char *const v[], char *const e[]) { (void)p; (void)f; (void)a; (void)b; (void)v; (void)e; return ENOENT; }
int posix_spawn(pid_t *p, const char *f, const void *a, const void *b, char *const v[], char *const e[]) { (void)p; (void)f; (void)a; (void)b; (void)v; (void)e; return ENOENT; }
