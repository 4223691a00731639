// LD_PRELOAD shim: the simulated disk and wall clock under the process.
// Everything is off until the simulator arms it through hs_ctl().
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>

static long cfg[16];      // see enum
enum { ARMED, FAIL_AT, FAIL_KIND, STICKY, CLOCK_OFF, CLOCK_STEP, CRASH_AT, CAPACITY };
static long stat_[16];
enum { N_WRITE, N_TRUNC, N_OPEN, N_FAULT, N_CLOCK, N_OPS, N_BYTES, N_SYNC };
static char prefix[4096];
static long optrace_n;

void hs_ctl(int k, long v) { cfg[k] = v; }
void hs_prefix(const char *p) { strncpy(prefix, p, sizeof prefix - 1); }
long hs_stat(int k) { return stat_[k]; }
void hs_reset(void) { memset(cfg, 0, sizeof cfg); memset(stat_, 0, sizeof stat_); prefix[0] = 0; optrace_n = 0; }

static int mine(int fd) {
    if (!cfg[ARMED] || !prefix[0]) return 0;
    char l[64], b[4096];
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(l, b, sizeof b - 1);
    if (n <= 0) return 0;
    b[n] = 0;
    size_t m = strlen(prefix);
    if (strncmp(b, prefix, m)) return 0;
    // only result files
    const char *e = strstr(b, ".nc");
    return e != NULL;
}

// decide the fate of the next mutating operation on a simulated file.
// returns 0 = do it, -1 = fail with errno set, 1 = do it short (torn)
static int fate(void) {
    long n = ++stat_[N_OPS];
    if (cfg[CRASH_AT] > 0 && n == cfg[CRASH_AT]) _exit(77);
    if (cfg[CRASH_AT] < 0 && n == -cfg[CRASH_AT]) return 2;          // torn write, then crash
    if (cfg[FAIL_AT] && (n == cfg[FAIL_AT] || (cfg[STICKY] && n > cfg[FAIL_AT]))) {
        stat_[N_FAULT]++;
        switch (cfg[FAIL_KIND]) {
        case 1: errno = ENOSPC; return -1;
        case 2: errno = EIO; return -1;
        case 3: errno = EDQUOT; return -1;
        case 4: return 1;
        default: errno = EIO; return -1;
        }
    }
    return 0;
}

#define REAL(name) static __typeof__(&name) real; if (!real) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)

static size_t cut(size_t n) { return n > 1 ? n / 2 : n; }

ssize_t write(int fd, const void *b, size_t n) {
    REAL(write);
    if (cfg[ARMED] && mine(fd)) {
        stat_[N_WRITE]++;
        int f = fate();
        if (f < 0) return -1;
        if (f == 1) return real(fd, b, cut(n));
        if (f == 2) { real(fd, b, cut(n)); _exit(77); }
        stat_[N_BYTES] += n;
    }
    return real(fd, b, n);
}
#define PW(name, off) \
ssize_t name(int fd, const void *b, size_t n, off o) { \
    REAL(name); \
    if (cfg[ARMED] && mine(fd)) { \
        stat_[N_WRITE]++; \
        int f = fate(); \
        if (f < 0) return -1; \
        if (f == 1) return real(fd, b, cut(n), o); \
        if (f == 2) { real(fd, b, cut(n), o); _exit(77); } \
        stat_[N_BYTES] += n; \
    } \
    return real(fd, b, n, o); \
}
PW(pwrite, off_t)
PW(pwrite64, off64_t)
#define FT(name, off) \
int name(int fd, off o) { \
    REAL(name); \
    if (cfg[ARMED] && mine(fd)) { \
        stat_[N_TRUNC]++; \
        int f = fate(); \
        if (f < 0) return -1; \
        if (f == 2) _exit(77); \
    } \
    return real(fd, o); \
}
FT(ftruncate, off_t)
FT(ftruncate64, off64_t)

int clock_gettime(clockid_t id, struct timespec *ts) {
    REAL(clock_gettime);
    int r = real(id, ts);
    if (!r && cfg[ARMED] && id == CLOCK_REALTIME && (cfg[CLOCK_OFF] || cfg[CLOCK_STEP])) {
        // a clock that is a pure function of the number of reads: jumps, never real time
        long k = stat_[N_CLOCK]++;
        ts->tv_sec = cfg[CLOCK_OFF] + k * cfg[CLOCK_STEP];
        ts->tv_nsec = 123456789;
    }
    return r;
}
int gettimeofday(struct timeval *tv, void *tz) {
    REAL(gettimeofday);
    int r = real(tv, tz);
    if (!r && cfg[ARMED] && (cfg[CLOCK_OFF] || cfg[CLOCK_STEP])) {
        long k = stat_[N_CLOCK]++;
        tv->tv_sec = cfg[CLOCK_OFF] + k * cfg[CLOCK_STEP];
        tv->tv_usec = 123456;
    }
    return r;
}
time_t time(time_t *t) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}
