/* Clock seam: CLOCK_REALTIME (and time()) answer a value the harness decides.
 * Preloaded into the python process that runs a check; until the harness sets a
 * value the real clock is used, so imports and the harness itself are unaffected. */
#define _GNU_SOURCE
#include <time.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <stdint.h>

static volatile int vc_on = 0;
static volatile int64_t vc_ns = 0;

void vclock_set(int64_t ns) { vc_ns = ns; vc_on = 1; }
void vclock_off(void) { vc_on = 0; }
int64_t vclock_get(void) { return vc_on ? vc_ns : -1; }

static int is_wall(clockid_t c) { return c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE; }

int clock_gettime(clockid_t c, struct timespec *ts) {
    if (vc_on && is_wall(c)) {
        int64_t ns = vc_ns;
        int64_t s = ns / 1000000000LL, r = ns % 1000000000LL;
        if (r < 0) { r += 1000000000LL; s -= 1; }
        ts->tv_sec = s; ts->tv_nsec = r;
        return 0;
    }
    return syscall(SYS_clock_gettime, c, ts);
}
int gettimeofday(struct timeval *tv, void *tz) {
    struct timespec ts; (void)tz;
    if (clock_gettime(CLOCK_REALTIME, &ts)) return -1;
    tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
time_t time(time_t *t) {
    struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}
