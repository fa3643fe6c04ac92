/* Gives the process the hash seed named by VMC_SEED: std takes its keys from getrandom. */
#define _GNU_SOURCE
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
ssize_t getrandom(void *buf, size_t n, unsigned flags) {
    const char *s = getenv("VMC_SEED");
    unsigned long long k = s ? strtoull(s, 0, 10) : 0, x = k * 0x9e3779b97f4a7c15ull + 1;
    unsigned char *b = buf;
    (void)flags;
    for (size_t i = 0; i < n; i++) { if (i % 8 == 0) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; } b[i] = x >> (8 * (i % 8)); }
    return (ssize_t)n;
}

/* Moves the wall clock by VMC_TIME seconds. */
#include <time.h>
#include <unistd.h>
#include <sys/syscall.h>
int clock_gettime(clockid_t id, struct timespec *ts) {
    int r = (int)syscall(SYS_clock_gettime, id, ts);
    const char *s = getenv("VMC_TIME");
    if (r == 0 && id == CLOCK_REALTIME && s) ts->tv_sec += strtoll(s, 0, 10);
    return r;
}
