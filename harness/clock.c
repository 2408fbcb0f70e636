/* LD_PRELOAD: shifts the calendar clock of a child process by CLOCK_SHIFT seconds */
#define _GNU_SOURCE
#include <stdlib.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

static long shift(void) {
    const char *s = getenv("CLOCK_SHIFT");
    return s ? atol(s) : 0;
}
int clock_gettime(clockid_t c, struct timespec *t) {
    int r = syscall(SYS_clock_gettime, c, t);
    if (!r && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) t->tv_sec += shift();
    return r;
}
int gettimeofday(struct timeval *tv, void *tz) {
    struct timespec t;
    (void)tz;
    if (clock_gettime(CLOCK_REALTIME, &t)) return -1;
    tv->tv_sec = t.tv_sec;
    tv->tv_usec = t.tv_nsec / 1000;
    return 0;
}
time_t time(time_t *out) {
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    if (out) *out = t.tv_sec;
    return t.tv_sec;
}
