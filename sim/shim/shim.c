/* Interposition library: the simulated environment of one run of the real command (or of the
 * real build step). Every source of nondeterminism the process can meet at the C library
 * boundary is decided here from a fixed plan in shared memory; nothing is random here. */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/ioctl.h>
#include <termios.h>
#include <time.h>
#include <unistd.h>
#include "plan.h"

#define RAW(...) syscall(__VA_ARGS__)
static struct plan *P;
static uint64_t rnd;
static signed char cls[1024]; /* fd -> stream + 1 */

static uint64_t mix(uint64_t *s) {
    uint64_t z = (*s += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}
static void logev(int op, int st, long req, long ret, int err) {
    uint64_t h = P->log_hash;
    uint64_t v[4] = {(uint64_t)op * 8 + st, (uint64_t)req, (uint64_t)ret, (uint64_t)err};
    for (int i = 0; i < 4; i++) h = (h ^ v[i]) * 0x100000001B3ULL + 0x9E37;
    P->log_hash = h;
    uint64_t i = P->nlog++;
    if (i < NLOG) {
        P->log[i].op = op; P->log[i].stream = st; P->log[i].err = err;
        P->log[i].req = (int32_t)req; P->log[i].ret = (int32_t)ret;
    }
}
static void die_now(void) {
    P->kill_fired++;
    logev(9, 0, P->kill_sig, 0, 0);
    RAW(SYS_kill, RAW(SYS_getpid), P->kill_sig);
    for (;;) RAW(SYS_exit_group, 137);
}
static int kill_here(unsigned when, uint64_t ev) {
    return P->kill_sig && P->kill_at >= 0 && (uint64_t)P->kill_at == ev && P->kill_when == when;
}
static uint64_t event(void) {
    uint64_t e = P->events++;
    if (P->max_events && e > P->max_events) { P->hang = 1; RAW(SYS_exit_group, 86); }
    if (kill_here(0, e)) die_now();
    return e;
}
static void effect(uint64_t *ctr, const char *what, const char *path) {
    if (!P) return;
    if ((*ctr)++ == 0 && !P->effect[0]) snprintf(P->effect, sizeof P->effect, "%s %s", what, path ? path : "");
}

__attribute__((constructor(101))) static void sim_init(void) {
    const char *e = getenv("SIM_FD");
    if (!e) return;
    int fd = atoi(e);
    struct plan *p = mmap(0, sizeof *p, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (p == MAP_FAILED || p->magic != SIM_MAGIC + sizeof *p) { RAW(SYS_exit_group, 87); }
    RAW(SYS_close, fd);
    unsetenv("SIM_FD");
    unsetenv("LD_PRELOAD");
    struct rlimit rl = {20, 25};
    setrlimit(RLIMIT_CPU, &rl);
    rl.rlim_cur = rl.rlim_max = 0;
    setrlimit(RLIMIT_CORE, &rl);
    alarm(120);
    cls[0] = p->mode == 2 ? 0 : 1; cls[2] = p->mode == 2 ? 0 : 3;
    cls[1] = p->mode == 0 ? 2 : 0;
    rnd = p->hash_seed;
    if (p->heap_seed) {
        uint64_t s = p->heap_seed; void *b[64];
        for (int i = 0; i < 64; i++) b[i] = malloc(16 + mix(&s) % 5000);
        for (int i = 0; i < 64; i++) if (mix(&s) & 1) free(b[i]);
    }
    p->armed = 1;
    P = p;
}

/* ---- byte streams ---- */
static int stream_of(int fd) { return fd >= 0 && fd < 1024 ? cls[fd] - 1 : -1; }

/* Decides one call on a stream. Returns bytes allowed (>0), 0 = report no progress / end, -1 = errno set.
 * `at` is the position in the stream. */
static long decide(int st, uint64_t at, long want, int is_read) {
    struct stream_plan *s = &P->s[st];
    uint64_t call = P->calls[st]++;
    for (uint32_t i = 0; i < s->eintr_n; i++)
        if (s->eintr_at[i] == call) { P->eintr_fired[st]++; errno = EINTR; return -1; }
    long n = want;
    if (s->err_at >= 0) {
        if (at >= (uint64_t)s->err_at) {
            if (s->err_count == 0xffffffffu || P->err_fired[st] < s->err_count) {
                P->err_fired[st]++;
                if (s->err_no == 0) return 0;
                errno = s->err_no; return -1;
            }
        } else if ((uint64_t)n > (uint64_t)s->err_at - at) n = s->err_at - at;
    }
    if (is_read && s->eof_at >= 0) {
        if (at >= (uint64_t)s->eof_at) { P->eof_fired++; return 0; }
        if ((uint64_t)n > (uint64_t)s->eof_at - at) n = s->eof_at - at;
    }
    if (s->chunk_n) {
        uint32_t c = s->chunks[call % s->chunk_n];
        if (c && n > c) n = c;
    }
    if (n < want) P->short_fired[st]++;
    return n;
}
static ssize_t do_read(int fd, void *buf, size_t len) {
    int st = stream_of(fd);
    if (!P || st != 0 || len == 0) return RAW(SYS_read, fd, buf, len);
    uint64_t ev = event();
    int after = P->in_eof_seen;
    uint64_t at = P->off[st];
    if (P->mode == 0 && P->in_kind != 1) { off64_t o = RAW(SYS_lseek, fd, 0, SEEK_CUR); if (o >= 0) at = o; }
    long n = decide(st, at, len, 1);
    if (after && !(n < 0 && errno == EINTR)) P->reads_after_eof++;
    long r;
    if (n > 0) r = P->in_kind == 1 ? RAW(SYS_pread64, fd, buf, n, at) : RAW(SYS_read, fd, buf, n); else r = n;
    int e = errno;
    if (r > 0) P->off[st] += r;
    if (r > 0 && at + r > P->in_max) P->in_max = at + r;
    if (r == 0) { P->in_eof_seen = 1; P->zero_ret[st]++; }
    logev(1, st, len, r, r < 0 ? e : 0);
    if (kill_here(1, ev) || kill_here(2, ev)) die_now();
    errno = e;
    return r;
}
static ssize_t do_write(int fd, const void *buf, size_t len) {
    int st = stream_of(fd);
    if (!P || st < 1 || len == 0) return RAW(SYS_write, fd, buf, len);
    uint64_t ev = event();
    if (st == 1 && !P->in_eof_seen) P->out_before_eof += len;
    long n = decide(st, P->off[st], len, 0);
    int mid = kill_here(2, ev);
    if (mid && n > 0) n = (n + 1) / 2;
    long r;
    if (n > 0) r = RAW(SYS_write, fd, buf, n); else r = n;
    int e = errno;
    if (r > 0) P->off[st] += r;
    if (r == 0) P->zero_ret[st]++;
    logev(2, st, len, r, r < 0 ? e : 0);
    if (mid || kill_here(1, ev)) die_now();
    errno = e;
    return r;
}
/* Reading and asking elsewhere than at the current position. */
ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
    if (!P || stream_of(fd) != 0 || n == 0) return RAW(SYS_pread64, fd, b, n, o);
    if (P->in_kind == 1) { errno = ESPIPE; return -1; }
    off64_t old = RAW(SYS_lseek, fd, 0, SEEK_CUR);
    RAW(SYS_lseek, fd, o, SEEK_SET);
    ssize_t r = do_read(fd, b, n);
    int e = errno;
    RAW(SYS_lseek, fd, old, SEEK_SET);
    errno = e;
    return r;
}
ssize_t pread(int fd, void *b, size_t n, off_t o) { return pread64(fd, b, n, o); }
off64_t lseek64(int fd, off64_t o, int wh) {
    if (!P || stream_of(fd) != 0) return RAW(SYS_lseek, fd, o, wh);
    P->seeks++;
    if (P->in_kind == 1) { errno = ESPIPE; return -1; }
    off64_t r;
    if (wh == SEEK_END && P->in_kind == 2) r = RAW(SYS_lseek, fd, P->in_size + o, SEEK_SET);
    else r = RAW(SYS_lseek, fd, o, wh);
    return r;
}
off_t lseek(int fd, off_t o, int wh) { return lseek64(fd, o, wh); }
static int is_input(const struct stat *s);
static void dress(struct stat *s) {
    if (!P || P->mode != 0 || !P->in_kind || !is_input(s)) return;
    P->stats_asked++;
    if (P->in_kind == 1) { s->st_mode = (s->st_mode & ~S_IFMT) | S_IFIFO; s->st_size = 0; s->st_blocks = 0; }
    else s->st_size = P->in_size;
}
int fstat64(int fd, struct stat64 *s) { int r = RAW(SYS_fstat, fd, s); if (!r) dress((struct stat *)s); return r; }
int fstat(int fd, struct stat *s) { return fstat64(fd, (struct stat64 *)s); }
int fstatat64(int d, const char *p, struct stat64 *s, int f) { int r = RAW(SYS_newfstatat, d, p, s, f); if (!r) dress((struct stat *)s); return r; }
int fstatat(int d, const char *p, struct stat *s, int f) { return fstatat64(d, p, (struct stat64 *)s, f); }
int stat64(const char *p, struct stat64 *s) { return fstatat64(AT_FDCWD, p, s, 0); }
int stat(const char *p, struct stat *s) { return stat64(p, (struct stat64 *)s); }
int lstat64(const char *p, struct stat64 *s) { return fstatat64(AT_FDCWD, p, s, AT_SYMLINK_NOFOLLOW); }
int lstat(const char *p, struct stat *s) { return lstat64(p, (struct stat64 *)s); }
int statx(int d, const char *restrict p, int f, unsigned m, struct statx *restrict x) {
    int r = RAW(SYS_statx, d, p, f, m, x);
    if (r || !P || P->mode != 0 || !P->in_kind || !x) return r;
    struct stat s;
    if (RAW(SYS_newfstatat, d, p, &s, f & (AT_EMPTY_PATH | AT_SYMLINK_NOFOLLOW)) || !is_input(&s)) return r;
    dress(&s);
    x->stx_mode = s.st_mode; x->stx_size = s.st_size; x->stx_blocks = s.st_blocks;
    return r;
}
ssize_t read(int fd, void *b, size_t n) { return do_read(fd, b, n); }
ssize_t __read_chk(int fd, void *b, size_t n, size_t m) { (void)m; return do_read(fd, b, n); }
ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n); }
ssize_t readv(int fd, const struct iovec *v, int c) {
    if (!P || stream_of(fd) != 0) return RAW(SYS_readv, fd, v, c);
    for (int i = 0; i < c; i++) if (v[i].iov_len) return do_read(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    if (!P || stream_of(fd) < 1) return RAW(SYS_writev, fd, v, c);
    for (int i = 0; i < c; i++) if (v[i].iov_len) return do_write(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
/* Kernel-side copies are refused, so that copies go through read and write above. */
ssize_t copy_file_range(int a, off64_t *b, int c, off64_t *d, size_t n, unsigned f) {
    if (P) { errno = ENOSYS; return -1; }
    return RAW(SYS_copy_file_range, a, b, c, d, n, f);
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) {
    if (P) { errno = ENOSYS; return -1; }
    return RAW(SYS_sendfile, o, i, off, n);
}
ssize_t sendfile(int o, int i, off_t *off, size_t n) { return sendfile64(o, i, off, n); }
ssize_t splice(int a, off64_t *b, int c, off64_t *d, size_t n, unsigned f) {
    if (P) { errno = EINVAL; return -1; }
    return RAW(SYS_splice, a, b, c, d, n, f);
}
void *mmap64(void *a, size_t l, int pr, int fl, int fd, off64_t o) {
    if (P && fd >= 0 && stream_of(fd) == 0) { errno = ENODEV; return MAP_FAILED; } /* no back door to the input */
    return (void *)RAW(SYS_mmap, a, l, pr, fl, fd, o);
}

/* ---- opening files ---- */
/* The build step: every file. A script: the files of its working folder, not the interpreter's. */
static int watched(const char *path) {
    if (P->mode == 1) return 1;
    if (P->mode != 2 || !path || strstr(path, "scripts/") || strstr(path, "/site/")) return 0;
    return path[0] != '/' || strstr(path, "/tree/");
}
static int is_input(const struct stat *s) { return P->in_ino && s->st_ino == P->in_ino && s->st_dev == P->in_dev; }
static int do_open(int dir, const char *path, int flags, int mode) {
    if (!P) return RAW(SYS_openat, dir, path, flags, mode);
    struct stat sb;
    int known = RAW(SYS_newfstatat, dir, path, &sb, 0) == 0;
    int input = known && is_input(&sb);
    int wr = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
    if (P->mode == 0 && wr && strncmp(path, "/dev/", 5) && strncmp(path, "/proc/", 6)) effect(&P->fs_effects, "open-for-write", path);
    if (input || watched(path)) {
        uint64_t ev = event();
        if (input) {
            if (P->open_eintr_fired < P->open_eintr) { P->open_eintr_fired++; logev(3, 0, flags, -1, EINTR); errno = EINTR; return -1; }
            if (P->open_errno) { P->open_err_fired++; logev(3, 0, flags, -1, P->open_errno); errno = P->open_errno; return -1; }
        }
        int fd = RAW(SYS_openat, dir, path, flags, mode);
        int e = errno;
        if (fd >= 0 && fd < 1024) {
            int isdir = known && S_ISDIR(sb.st_mode);
            int special = !strncmp(path, "/proc/", 6) || !strncmp(path, "/sys/", 5) || !strncmp(path, "/dev/", 5);
            cls[fd] = input ? 1 : isdir || special ? 0 : wr ? 2 : 1;
        }
        logev(3, 0, flags, fd >= 0 ? 0 : -1, fd < 0 ? e : 0);
        if (kill_here(1, ev) || kill_here(2, ev)) die_now();
        errno = e;
        return fd;
    }
    int fd = RAW(SYS_openat, dir, path, flags, mode);
    if (fd >= 0 && fd < 1024) cls[fd] = 0;
    return fd;
}
#define OPENARGS int m = 0; if (fl & (O_CREAT | __O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, int); va_end(a); }
int open(const char *p, int fl, ...) { OPENARGS return do_open(AT_FDCWD, p, fl, m); }
int open64(const char *p, int fl, ...) { OPENARGS return do_open(AT_FDCWD, p, fl, m); }
int openat(int d, const char *p, int fl, ...) { OPENARGS return do_open(d, p, fl, m); }
int openat64(int d, const char *p, int fl, ...) { OPENARGS return do_open(d, p, fl, m); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return creat(p, m); }
static FILE *do_fopen(const char *p, const char *m, const char *sym) {
    if (P && P->mode == 0 && (strpbrk(m, "wa+")) && strncmp(p, "/dev/", 5)) effect(&P->fs_effects, "fopen", p);
    FILE *(*f)(const char *, const char *) = dlsym(RTLD_NEXT, sym);
    return f(p, m);
}
FILE *fopen(const char *p, const char *m) { return do_fopen(p, m, "fopen"); }
FILE *fopen64(const char *p, const char *m) { return do_fopen(p, m, "fopen64"); }
int close(int fd) {
    if (P && fd >= 0 && fd < 1024) cls[fd] = 0;
    return RAW(SYS_close, fd);
}
static int dup_to(int old, int nw) { if (P && nw >= 0 && nw < 1024 && old >= 0 && old < 1024) cls[nw] = cls[old]; return nw; }
int dup(int o) { return dup_to(o, RAW(SYS_dup, o)); }
int dup2(int o, int n) { return dup_to(o, RAW(SYS_dup2, o, n)); }
int dup3(int o, int n, int f) { return dup_to(o, RAW(SYS_dup3, o, n, f)); }
static int do_fcntl(int fd, int c, long a) {
    int r = RAW(SYS_fcntl, fd, c, a);
    if (c == F_DUPFD || c == F_DUPFD_CLOEXEC) dup_to(fd, r);
    return r;
}
int fcntl(int fd, int c, ...) { va_list v; va_start(v, c); long a = va_arg(v, long); va_end(v); return do_fcntl(fd, c, a); }
int fcntl64(int fd, int c, ...) { va_list v; va_start(v, c); long a = va_arg(v, long); va_end(v); return do_fcntl(fd, c, a); }

/* ---- side effects that the command must not have (and events of the build step) ---- */
#pragma GCC diagnostic ignored "-Wmisleading-indentation"
#define EFFECT(name, args, pathv, raw) int name args { \
    if (P && P->mode == 0) effect(&P->fs_effects, #name, pathv); \
    if (P && watched(pathv)) { uint64_t ev = event(); int r = raw; int e = errno; logev(4, 0, 0, r, r < 0 ? e : 0); \
        if (kill_here(1, ev) || kill_here(2, ev)) die_now(); errno = e; return r; } \
    return raw; }
EFFECT(unlink, (const char *p), p, RAW(SYS_unlink, p))
EFFECT(unlinkat, (int d, const char *p, int f), p, RAW(SYS_unlinkat, d, p, f))
EFFECT(rmdir, (const char *p), p, RAW(SYS_rmdir, p))
EFFECT(mkdir, (const char *p, mode_t m), p, RAW(SYS_mkdir, p, m))
EFFECT(mkdirat, (int d, const char *p, mode_t m), p, RAW(SYS_mkdirat, d, p, m))
EFFECT(rename, (const char *p, const char *q), p, RAW(SYS_rename, p, q))
EFFECT(renameat, (int a, const char *p, int b, const char *q), p, RAW(SYS_renameat, a, p, b, q))
EFFECT(renameat2, (int a, const char *p, int b, const char *q, unsigned f), p, RAW(SYS_renameat2, a, p, b, q, f))
EFFECT(link, (const char *p, const char *q), p, RAW(SYS_link, p, q))
EFFECT(linkat, (int a, const char *p, int b, const char *q, int f), p, RAW(SYS_linkat, a, p, b, q, f))
EFFECT(symlink, (const char *p, const char *q), p, RAW(SYS_symlink, p, q))
EFFECT(truncate64, (const char *p, off64_t n), p, RAW(SYS_truncate, p, n))
EFFECT(chmod, (const char *p, mode_t m), p, RAW(SYS_chmod, p, m))
int ftruncate64(int fd, off64_t n) { if (P && P->mode == 0) effect(&P->fs_effects, "ftruncate", ""); return RAW(SYS_ftruncate, fd, n); }
int socket(int a, int b, int c) { if (P) effect(&P->proc_effects, "socket", ""); return RAW(SYS_socket, a, b, c); }
pid_t fork(void) {
    if (P) effect(&P->proc_effects, "fork", "");
    pid_t (*f)(void) = dlsym(RTLD_NEXT, "fork"); return f();
}
int execve(const char *p, char *const a[], char *const e[]) { if (P) effect(&P->proc_effects, "execve", p); return RAW(SYS_execve, p, a, e); }
#define SPAWN(name) int name(pid_t *pid, const char *p, const void *fa, const void *at, char *const a[], char *const e[]) { \
    if (P) effect(&P->proc_effects, "spawn", p); \
    int (*f)(pid_t *, const char *, const void *, const void *, char *const *, char *const *) = dlsym(RTLD_NEXT, #name); return f(pid, p, fa, at, a, e); }
SPAWN(posix_spawn)
SPAWN(posix_spawnp)

/* ---- randomness, time ---- */
ssize_t getrandom(void *b, size_t n, unsigned fl) {
    if (!P) return RAW(SYS_getrandom, b, n, fl);
    P->getrandom_calls++;
    for (size_t i = 0; i < n; i++) ((unsigned char *)b)[i] = mix(&rnd);
    return n;
}
int getentropy(void *b, size_t n) { return getrandom(b, n, 0) == (ssize_t)n ? 0 : -1; }
static int64_t clk_off;
static int64_t now_ns(void) {
    uint64_t c = P->clock_calls++;
    for (uint32_t i = 0; i < P->clk_jump_n; i++)
        if (P->clk_jump_at[i] == c) { clk_off += P->clk_jump[i]; P->clock_jumps++; }
    int64_t t = P->clk_base_ns + (int64_t)c * P->clk_step_ns + clk_off;
    t = t < 0 ? 0 : t;
    P->clk_elapsed = (int64_t)c * P->clk_step_ns + clk_off;
    return t;
}
int clock_gettime(clockid_t id, struct timespec *ts) {
    if (!P) return RAW(SYS_clock_gettime, id, ts);
    int64_t t = now_ns();
    ts->tv_sec = t / 1000000000; ts->tv_nsec = t % 1000000000;
    return 0;
}
int gettimeofday(struct timeval *restrict tv, void *restrict tz) {
    (void)tz;
    if (!P) return RAW(SYS_gettimeofday, tv, tz);
    int64_t t = now_ns(); tv->tv_sec = t / 1000000000; tv->tv_usec = t % 1000000000 / 1000; return 0;
}
time_t time(time_t *o) {
    struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (o) *o = ts.tv_sec; return ts.tv_sec;
}
static void slept(int64_t ns) { P->timer_waits++; clk_off += ns; P->clk_elapsed += ns; event(); logev(5, 0, 0, 0, 0); }
int nanosleep(const struct timespec *r, struct timespec *m) {
    if (!P) return RAW(SYS_nanosleep, r, m);
    slept(r->tv_sec * 1000000000LL + r->tv_nsec); return 0;
}
int clock_nanosleep(clockid_t c, int f, const struct timespec *r, struct timespec *m) {
    if (!P) return RAW(SYS_clock_nanosleep, c, f, r, m) ? errno : 0;
    slept(f ? 0 : r->tv_sec * 1000000000LL + r->tv_nsec); return 0;
}
int usleep(useconds_t u) { struct timespec t = {u / 1000000, u % 1000000 * 1000}; return nanosleep(&t, 0); }
int poll(struct pollfd *f, nfds_t n, int ms) {
    if (!P) return RAW(SYS_poll, f, n, ms);
    if (ms != 0) slept(ms * 1000000LL);
    return RAW(SYS_poll, f, n, 0);
}
int select(int n, fd_set *r, fd_set *w, fd_set *x, struct timeval *t) {
    if (!P) return RAW(SYS_select, n, r, w, x, t);
    slept(0); struct timeval z = {0, 0}; return RAW(SYS_select, n, r, w, x, &z);
}

/* ---- environment variables, terminals ---- */
extern char **environ;
char *getenv(const char *name) {
    size_t n = strlen(name);
    for (char **e = environ; e && *e; e++) if (!strncmp(*e, name, n) && (*e)[n] == '=') return *e + n + 1;
    if (P && P->mode == 0 && P->armed && strncmp(name, "RUST_", 5)) {
        P->env_reads++;
        if (P->env_seed) {
            uint64_t h = P->env_seed;
            for (const char *c = name; *c; c++) { h ^= (unsigned char)*c; h = mix(&h); }
            static char *answers[] = {0, "0", "true", "C", "1", "1", "dumb"};
            return answers[h % 7];
        }
    }
    return 0;
}
char *secure_getenv(const char *name) { return getenv(name); }
int isatty(int fd) {
    if (P && P->mode == 0 && fd >= 0 && fd < 3) {
        P->tty_asked++;
        if (P->tty >> fd & 1) return 1;
        errno = ENOTTY; return 0;
    }
    struct termios t;
    return RAW(SYS_ioctl, fd, TCGETS, &t) == 0;
}

/* ---- process and thread numbers (panic messages carry them) ---- */
pid_t getpid(void) { return P ? 4242 : RAW(SYS_getpid); }
pid_t gettid(void) {
    static __thread pid_t id;
    static pid_t last = 4241;
    if (!P) return RAW(SYS_gettid);
    if (!id) id = __atomic_add_fetch(&last, 1, __ATOMIC_SEQ_CST);
    return id;
}

/* ---- memory ---- */
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t), *__libc_memalign(size_t, size_t);
static int alloc_fails(void) {
    if (!P) return 0;
    uint64_t i = P->mallocs++;
    if (P->kill_at_malloc >= 0 && (uint64_t)P->kill_at_malloc == i && P->kill_sig) die_now();
    if (P->malloc_fail_at >= 0 && i >= (uint64_t)P->malloc_fail_at
        && (P->malloc_fail_count == 0xffffffffu || P->malloc_fail_fired < P->malloc_fail_count)) {
        if (P->malloc_fail_fired++ < 64) logev(6, 0, i, 0, ENOMEM);
        errno = ENOMEM;
        return 1;
    }
    return 0;
}
void *malloc(size_t n) { return alloc_fails() ? 0 : __libc_malloc(n); }
void *calloc(size_t a, size_t b) { return alloc_fails() ? 0 : __libc_calloc(a, b); }
void *realloc(void *p, size_t n) { return alloc_fails() ? 0 : __libc_realloc(p, n); }
void *memalign(size_t a, size_t n) { return alloc_fails() ? 0 : __libc_memalign(a, n); }
void *aligned_alloc(size_t a, size_t n) { return alloc_fails() ? 0 : __libc_memalign(a, n); }
int posix_memalign(void **p, size_t a, size_t n) {
    if (alloc_fails()) return ENOMEM;
    void *q = __libc_memalign(a, n);
    if (!q) return ENOMEM;
    *p = q; return 0;
}

/* ---- directory order ---- */
struct dirlist { DIR *d; int n, i; struct dirent64 *e; struct dirlist *next; };
static struct dirlist *dirs;
struct dirent64 *readdir64(DIR *d) {
    static struct dirent64 *(*real)(DIR *);
    if (!real) real = dlsym(RTLD_NEXT, "readdir64");
    if (!P || !P->dir_seed) return real(d);
    struct dirlist *l;
    for (l = dirs; l && l->d != d; l = l->next) ;
    if (!l) {
        l = calloc(1, sizeof *l); l->d = d; l->next = dirs; dirs = l;
        struct dirent64 *e;
        while ((e = real(d))) { l->e = realloc(l->e, (l->n + 1) * sizeof *e); memcpy(&l->e[l->n++], e, sizeof *e); }
        /* the starting point must not be the real directory order */
        for (int i = 1; i < l->n; i++) for (int j = i; j > 0 && strcmp(l->e[j - 1].d_name, l->e[j].d_name) > 0; j--) {
            struct dirent64 t = l->e[j]; l->e[j] = l->e[j - 1]; l->e[j - 1] = t; }
        uint64_t s = P->dir_seed;
        for (int i = l->n - 1; i > 0; i--) { int j = mix(&s) % (i + 1); struct dirent64 t = l->e[i]; l->e[i] = l->e[j]; l->e[j] = t; }
        P->dir_shuffles++;
    }
    return l->i < l->n ? &l->e[l->i++] : 0;
}
struct dirent *readdir(DIR *d) { return (struct dirent *)readdir64(d); }
