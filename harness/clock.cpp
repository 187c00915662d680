// Clocks and delays. The system's clock and sleep calls are replaced by a virtual clock which the monitor
// advances, so that readings can be compared with the exact time that went by; the wall clock of the virtual
// system jumps back and forth, which none of the readings may follow.
#include "vf.hpp"
#include "edyn/time/time.hpp"
#include <cerrno>
#include <ctime>
#include <sys/syscall.h>
#include <sys/time.h>
#include <thread>
#include <pthread.h>

namespace {
// Constant-initialized: clocks are read during the initialization of the library.
bool fake = false; int64_t now_ns = 0; int64_t wall_ns = 0; int interruptions = 0; uint64_t sleeps = 0; int64_t asked_ns = 0; bool advance_on_read = false; uint64_t reads = 0;
vf::rng *rn = nullptr;
void advance(int64_t ns) { now_ns += ns; wall_ns += ns; }
int fake_sleep(int64_t ns, timespec *rem) {
    ++sleeps; if (ns < 0) { errno = EINVAL; return -1; }
    if (interruptions > 0) { --interruptions; int64_t d = ns ? (int64_t)rn->below((uint64_t)ns) : 0; if (rn->chance(0.2)) d = 0; advance(d); if (rem) { rem->tv_sec = (ns - d) / 1000000000; rem->tv_nsec = (ns - d) % 1000000000; } errno = EINTR; return -1; }
    advance(ns); return 0;
}
}
extern "C" int clock_gettime(clockid_t id, timespec *ts) noexcept {
    if (!fake) return (int)syscall(SYS_clock_gettime, id, ts);
    ++reads; if (advance_on_read) advance(7); int64_t t = id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI ? wall_ns : now_ns; ts->tv_sec = t / 1000000000; ts->tv_nsec = t % 1000000000; return 0;
}
extern "C" int gettimeofday(timeval *__restrict tv, void *__restrict tz) noexcept {
    if (!fake) return (int)syscall(SYS_gettimeofday, tv, tz);
    tv->tv_sec = wall_ns / 1000000000; tv->tv_usec = wall_ns % 1000000000 / 1000; return 0;
}
extern "C" int nanosleep(const timespec *req, timespec *rem) {
    if (!fake) return (int)syscall(SYS_nanosleep, req, rem);
    if (req->tv_nsec < 0 || req->tv_nsec >= 1000000000 || req->tv_sec < 0) { errno = EINVAL; return -1; }
    return fake_sleep(req->tv_sec * 1000000000 + req->tv_nsec, rem);
}
extern "C" int clock_nanosleep(clockid_t id, int flags, const timespec *req, timespec *rem) {
    if (!fake) return (int)syscall(SYS_clock_nanosleep, id, flags, req, rem) < 0 ? errno : 0;
    if (req->tv_nsec < 0 || req->tv_nsec >= 1000000000 || req->tv_sec < 0) return EINVAL;
    int64_t ns = req->tv_sec * 1000000000 + req->tv_nsec; if (flags & TIMER_ABSTIME) { ns -= id == CLOCK_REALTIME ? wall_ns : now_ns; if (ns < 0) ns = 0; rem = nullptr; }
    return fake_sleep(ns, rem) ? EINTR : 0;
}
extern "C" int usleep(useconds_t us) { if (!fake) { timespec t{us / 1000000, (long)(us % 1000000) * 1000}; return (int)syscall(SYS_nanosleep, &t, nullptr); } return fake_sleep((int64_t)us * 1000, nullptr); }
static int64_t real_ns() { timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000000ll + t.tv_nsec; }
static void begin(vf::ctx &c) {
    timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); // starts no earlier than the library's own initialization
    now_ns = ((int64_t)t.tv_sec + 10 + (int64_t)c.r.below(c.r.chance(0.5) ? 100 : 2000000)) * 1000000000 + (int64_t)c.r.below(1000000000); wall_ns = now_ns + 1500000000000000000ll;
    rn = &c.r; interruptions = 0; sleeps = 0; fake = true;
}

VF_SECTION(clock_readings, 4000, 60000) {
    begin(c); advance_on_read = c.r.chance(0.2); int n = c.r.range(2, 30); int64_t t0 = now_ns; auto c0 = edyn::performance_counter(); auto f = edyn::performance_frequency(); auto p0 = edyn::performance_time(); auto k0 = edyn::ticks(); auto cl = c0; auto pl = p0; auto kl = k0;
    uint64_t h = 0; char why[300] = "";
    for (int i = 0; i < n && !why[0]; ++i) {
        int64_t d = c.r.chance(0.2) ? 0 : c.r.chance(0.3) ? c.r.range(1, 999) : c.r.chance(0.4) ? (int64_t)c.r.below(1000000) : c.r.chance(0.6) ? (int64_t)c.r.below(3000000000ull) : (int64_t)c.r.below(3600) * 1000000000;
        if (c.r.chance(0.2)) d += (1000000000 - now_ns % 1000000000) % 1000000000; // to the full second
        advance(d); if (c.r.chance(0.3)) wall_ns += (int64_t)(c.r.uni(-1, 1) * 4e12); h = vf::mix(h ^ (uint64_t)d);
        double el = (double)(now_ns - t0) * 1e-9; auto c1 = edyn::performance_counter(); auto p1 = edyn::performance_time(); auto k1 = edyn::ticks(); double slack = 1e-6 + 2.0 / (double)f;
        double ec = (double)(c1 - c0) / (double)f, ep = p1 - p0, ek = (double)(uint32_t)(k1 - k0);
        if (edyn::performance_frequency() != f || f < 1000) snprintf(why, sizeof why, "the frequency of the counter is %llu", (unsigned long long)f);
        else if (c1 < cl || p1 < pl) snprintf(why, sizeof why, "time goes back: counter %llu after %llu, time %.9f after %.9f", (unsigned long long)c1, (unsigned long long)cl, p1, pl);
        else if ((int32_t)(k1 - kl) < 0 && d < 1000000000000) snprintf(why, sizeof why, "ticks go back: %u after %u", k1, kl);
        else if (std::abs(ec - el) > slack) snprintf(why, sizeof why, "%.9f s went by, %.9f s according to the counter", el, ec);
        else if (std::abs(ep - el) > slack) snprintf(why, sizeof why, "%.9f s went by, %.9f s according to the time", el, ep);
        else if (std::abs(p1 - (double)c1 / (double)f) > slack) snprintf(why, sizeof why, "time %.9f is not the counter %.9f divided by its frequency", p1, (double)c1 / (double)f);
        else if (el * 1e3 < 4e9 && std::abs(ek - el * 1e3) > 1.001) snprintf(why, sizeof why, "%.6f ms went by, %.0f according to the ticks", el * 1e3, ek);
        cl = c1; pl = p1; kl = k1;
    }
    fake = false; advance_on_read = false;
    if (why[0]) c.fail("clock", "%s", why); c.event("readings", (uint64_t)n); c.hit(h); if (c.want_sample()) c.sample("%d readings over %.3f s of virtual time, frequency %llu", n, (double)(now_ns - t0) * 1e-9, (unsigned long long)f);
}
VF_SECTION(ticks_since_start, 500, 5000) {
    // Milliseconds since the library was initialized: within the real time that this process has lived.
    static int64_t f0 = real_ns(); static uint32_t kf = edyn::ticks(); static int64_t f1 = real_ns(); int64_t r0 = real_ns(); uint32_t k = edyn::ticks(); int64_t r1 = real_ns();
    double lo = (double)(r0 - f1) * 1e-6, hi = (double)(r1 - f0) * 1e-6, el = (double)(k - kf); // the other clock may run at a slightly different rate
    if (el < lo * 0.99 - 2 || el > hi * 1.01 + 2) c.fail("ticks", "between %.3f and %.3f ms went by, %.0f according to the ticks", lo, hi, el); if (k > 24 * 3600 * 1000) c.fail("ticks", "%u ms since the initialization of the library", k); c.hit(k);
}
VF_SECTION(delays, 3000, 50000) {
    begin(c); uint32_t ms = c.r.chance(0.1) ? 0 : c.r.chance(0.5) ? (uint32_t)c.r.range(1, 999) : c.r.chance(0.5) ? 1000 * (uint32_t)c.r.range(1, 4) : (uint32_t)c.r.range(1000, 100000); interruptions = c.r.chance(0.6) ? c.r.range(1, 6) : 0; int given = interruptions;
    int64_t t0 = now_ns; vf::note("delay of %u ms interrupted %d times", ms, given); advance_on_read = true; edyn::delay(ms); advance_on_read = false; int64_t el = now_ns - t0; fake = false;
    if (el < (int64_t)ms * 1000000) c.fail("delay_short", "delay of %u ms ends after %.6f ms (%d interruptions)", ms, (double)el * 1e-6, given);
    if (el > (int64_t)ms * 1000000 + 2000000 + (int64_t)given * 1000000) c.fail("delay_long", "delay of %u ms takes %.6f ms (%d interruptions)", ms, (double)el * 1e-6, given);
    c.event("interruptions", (uint64_t)(given - interruptions)); c.event("delays"); c.hit(vf::mix(ms) ^ (uint64_t)given); if (c.want_sample()) c.sample("delay(%u) took %.3f virtual ms with %d interruptions", ms, (double)el * 1e-6, given);
}
static void nothing(int) {}
VF_SECTION(real_delays, 24, 200) {
    struct sigaction a = {}; a.sa_handler = nothing; sigaction(SIGUSR1, &a, nullptr); uint32_t ms = (uint32_t)c.r.range(1, 25); pthread_t self = pthread_self(); std::atomic<bool> end{false}; int gap = c.r.range(1, 4000);
    std::thread t([&] { for (int i = 0; i < 20 && !end; ++i) { timespec s{0, gap * 1000}; syscall(SYS_nanosleep, &s, nullptr); if (!end) pthread_kill(self, SIGUSR1); } });
    int64_t t0 = real_ns(); edyn::delay(ms); double el = (double)(real_ns() - t0) * 1e-6; end = true; t.join();
    if (el < ms - 0.05) c.fail("delay_short", "delay of %u ms ends after %.3f ms under signals", ms, el); c.event("real"); c.hit(vf::mix(ms) ^ (uint64_t)gap);
}
