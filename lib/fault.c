// LD_PRELOAD fault injector: fails, shortens or interrupts the FAULT_K-th call of a kind on files
// below FAULT_DIR and logs what it did; FAULT_MODE=count only counts.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <signal.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

enum { WRITE, OPENW, READ, OPENR, MKDIR, KINDS };
static const char *names[KINDS] = {"write", "openw", "read", "openr", "mkdir"};
static char track[4096];
static long cnt[KINDS];
static int init_done, kind = -1, sticky, action; // action 0 error, 1 short, 2 eintr, 3 short then error, 4 kill the process group, 5 kill the process
static long delay_us; static unsigned rnd;
static long k; static int err = ENOSPC; static const char *dir; static size_t dirlen; static int logfd = -1;
static ssize_t (*r_write)(int, const void *, size_t);
static ssize_t (*r_read)(int, void *, size_t);

static void init(void) {
    if (init_done) return;
    init_done = 1;
    r_write = dlsym(RTLD_NEXT, "write"); r_read = dlsym(RTLD_NEXT, "read");
    dir = getenv("FAULT_DELAY"); if (dir) { delay_us = atol(dir); struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); rnd = getpid() * 2654435761u ^ t.tv_nsec; }
    dir = getenv("FAULT_DIR"); if (!dir) return; dirlen = strlen(dir);
    const char *m = getenv("FAULT_KIND"); if (m) for (int i = 0; i < KINDS; i++) if (!strcmp(m, names[i])) kind = i;
    const char *a = getenv("FAULT_ACTION"); if (a) action = !strcmp(a, "short") ? 1 : !strcmp(a, "eintr") ? 2 : !strcmp(a, "cut") ? 3 : !strcmp(a, "kill") ? 4 : !strcmp(a, "die") ? 5 : 0;
    const char *s = getenv("FAULT_K"); if (s) k = atol(s);
    s = getenv("FAULT_STICKY"); if (s) sticky = atoi(s);
    s = getenv("FAULT_ERRNO"); if (s) err = atoi(s);
    s = getenv("FAULT_LOG");
    if (s) { int (*o)(const char *, int, ...) = dlsym(RTLD_NEXT, "open"); logfd = o(s, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644); }
}
// FAULT_DELAY: before an operation on a file below FAULT_DIR, other processes get time to do theirs
static void dawdle(void) {
    if (delay_us <= 0) return;
    unsigned x = __sync_add_and_fetch(&rnd, 0x9e3779b9u); x ^= x >> 15; x *= 0x85ebca6bu; x ^= x >> 13;
    static long spent; long w = (x >> 8) % delay_us;
    if ((x & 1) && __sync_add_and_fetch(&spent, w) < 12 * delay_us) usleep(w);
}
static void die(void) { const char *s = getenv("FAULT_SIG"); kill(action == 5 ? getpid() : 0, s ? atoi(s) : SIGKILL); if (s) usleep(2000000); kill(getpid(), SIGKILL); for (;;) pause(); }
static void say(const char *f, int kd, const char *what) {
    if (logfd < 0) return;
    char b[600]; int l = snprintf(b, sizeof b, "%s %s %ld %s\n", f, names[kd], cnt[kd], what);
    r_write(logfd, b, l < (int)sizeof b ? l : (int)sizeof b - 1);
}
static int under(const char *p) {
    if (!dir || !p) return 0;
    char b[PATH_MAX * 2];
    if (p[0] != '/') { if (!getcwd(b, PATH_MAX)) return 0; size_t l = strlen(b); while (p[0] == '.' && p[1] == '/') p += 2; snprintf(b + l, sizeof b - l, "/%s", p); p = b; }
    return !strncmp(p, dir, dirlen);
}
// counts a call; 1 if it is to be hit
static int hit(int kd, const char *what) {
    long c = __sync_add_and_fetch(&cnt[kd], 1);
    if (kd != kind) return 0;
    if (c == k || (sticky && c > k)) { say("FIRED", kd, what); return 1; }
    return 0;
}
static int do_open(const char *p, int fl, int (*go)(void *), void *ctx) {
    init();
    int u = under(p), wr = (fl & O_ACCMODE) != O_RDONLY;
    struct stat st;
    if (u && !(fl & O_DIRECTORY)) dawdle();
    if (u && !(fl & O_DIRECTORY) && action >= 4) { // dies right after the file was created (or opened)
        int h = hit(wr ? OPENW : OPENR, p), fd = go(ctx);
        if (h) { die(); }
        if (fd >= 0 && fd < (int)sizeof track) track[fd] = wr ? 1 : 2;
        return fd;
    }
    if (u && !(fl & O_DIRECTORY) && !(!wr && stat(p, &st) == 0 && S_ISDIR(st.st_mode))) { if (hit(wr ? OPENW : OPENR, p)) { errno = err; return -1; } } else u = 0;
    int fd = go(ctx);
    if (fd >= 0 && fd < (int)sizeof track) track[fd] = u ? (wr ? 1 : 2) : 0;
    return fd;
}
struct oc { const char *sym; int at; const char *p; int fl; mode_t m; };
static int go_open(void *v) {
    struct oc *c = v;
    if (c->at != -12345) { int (*f)(int, const char *, int, ...) = dlsym(RTLD_NEXT, c->sym); return f(c->at, c->p, c->fl, c->m); }
    int (*f)(const char *, int, ...) = dlsym(RTLD_NEXT, c->sym); return f(c->p, c->fl, c->m);
}
#define MODE mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); }
int open(const char *p, int fl, ...) { MODE struct oc c = {"open", -12345, p, fl, m}; return do_open(p, fl, go_open, &c); }
int open64(const char *p, int fl, ...) { MODE struct oc c = {"open64", -12345, p, fl, m}; return do_open(p, fl, go_open, &c); }
int openat(int d, const char *p, int fl, ...) { MODE struct oc c = {"openat", d, p, fl, m}; return do_open(d == AT_FDCWD || p[0] == '/' ? p : NULL, fl, go_open, &c); }
int openat64(int d, const char *p, int fl, ...) { MODE struct oc c = {"openat64", d, p, fl, m}; return do_open(d == AT_FDCWD || p[0] == '/' ? p : NULL, fl, go_open, &c); }
int close(int fd) { init(); int (*f)(int) = dlsym(RTLD_NEXT, "close"); if (fd >= 0 && fd < (int)sizeof track) { if (track[fd] == 1) dawdle(); track[fd] = 0; } return f(fd); }
static int tracked(int fd, int w) { return fd >= 0 && fd < (int)sizeof track && track[fd] == w; }
// 3 ("cut"): the k-th call is shortened and every later one fails
static int faulted(int kd, const char *what, size_t *n) {
    if (action == 3 && kd == kind && cnt[kd] >= k) { __sync_add_and_fetch(&cnt[kd], 1); say("FIRED", kd, "after"); errno = err; return 1; }
    if (!hit(kd, what)) return 0;
    if (action == 0) { errno = err; return 1; }
    if (action == 2) { errno = EINTR; return 1; }
    if (*n > 1) *n /= 2;
    return action >= 4 ? 2 : 0;
}
ssize_t write(int fd, const void *b, size_t n) { init(); int f = 0; if (tracked(fd, 1)) dawdle(); if (tracked(fd, 1) && n) f = faulted(WRITE, "file", &n); if (f == 1) return -1;
    ssize_t r = r_write(fd, b, n); if (f == 2) { die(); } return r; }
ssize_t read(int fd, void *b, size_t n) { init(); int f = 0; if (tracked(fd, 2) && n) f = faulted(READ, "file", &n); if (f == 1) return -1; if (f == 2) { die(); } return r_read(fd, b, n); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    init(); size_t n = 0; for (int i = 0; i < c; i++) n += v[i].iov_len;
    ssize_t (*f)(int, const struct iovec *, int) = dlsym(RTLD_NEXT, "writev");
    if (tracked(fd, 1) && n) { size_t w = n; if (faulted(WRITE, "file", &w)) return -1; if (w != n) return r_write(fd, v[0].iov_base, v[0].iov_len < w ? v[0].iov_len : w); }
    return f(fd, v, c);
}
ssize_t copy_file_range(int a, off64_t *x, int b, off64_t *y, size_t n, unsigned f) { errno = ENOSYS; return -1; }
int rename(const char *a, const char *b) { init(); int (*f)(const char *, const char *) = dlsym(RTLD_NEXT, "rename"); if (under(a) || under(b)) dawdle(); return f(a, b); }
int unlink(const char *a) { init(); int (*f)(const char *) = dlsym(RTLD_NEXT, "unlink"); if (under(a)) dawdle(); return f(a); }
int mkdir(const char *p, mode_t m) { init(); int (*f)(const char *, mode_t) = dlsym(RTLD_NEXT, "mkdir"); if (under(p) && hit(MKDIR, p)) { if (action >= 4) { f(p, m); die(); } errno = err; return -1; } return f(p, m); }
__attribute__((destructor)) static void fini(void) { if (init_done && dir) for (int i = 0; i < KINDS; i++) say("COUNT", i, ""); }
