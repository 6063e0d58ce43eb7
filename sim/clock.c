/* simulated wall clock: preloaded, off until vps_clock(1, t) is called */
#define _GNU_SOURCE
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

static volatile int on = 0;
static volatile double base = 0;
static volatile long ticks = 0;

void vps_clock(int enable, double t)
{
    on = enable;
    base = t;
    ticks = 0;
}

static void now(struct timespec *ts)
{
    /* every look at the clock takes a millisecond */
    double t = base + 1e-3 * ticks++;
    ts->tv_sec = (time_t)t;
    if (t < (double)ts->tv_sec)
        ts->tv_sec--;
    ts->tv_nsec = (long)((t - (double)ts->tv_sec) * 1e9);
}

int clock_gettime(clockid_t id, struct timespec *ts)
{
    if (on && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) {
        now(ts);
        return 0;
    }
    return (int)syscall(SYS_clock_gettime, id, ts);
}

time_t time(time_t *out)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (out)
        *out = ts.tv_sec;
    return ts.tv_sec;
}

int gettimeofday(struct timeval *restrict tv, void *restrict tz)
{
    struct timespec ts;
    (void)tz;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (tv) {
        tv->tv_sec = ts.tv_sec;
        tv->tv_usec = ts.tv_nsec / 1000;
    }
    return 0;
}
