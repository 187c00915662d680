// Schedule perturbation: interposes on the pthread calls the library makes
// (thread start, lock, unlock, signal) and injects random delays right there,
// i.e. at suspension points the program really has. Plain builds only.
#ifndef VF_DELAY_HPP
#define VF_DELAY_HPP
#include <atomic>
#include <cstdint>
#include <dlfcn.h>
#include <pthread.h>
#include <sched.h>
#include <time.h>
#include <unistd.h>

namespace vfdelay {
inline std::atomic<int> enabled{0};      // per-mille probability of a delay
inline std::atomic<uint64_t> injected{0};
inline std::atomic<uint64_t> seed{1};
inline thread_local uint64_t tl = 0;
inline uint64_t rnd() {
    if (!tl) tl = seed.fetch_add(0x9e3779b97f4a7c15ull) | 1;
    tl ^= tl << 13; tl ^= tl >> 7; tl ^= tl << 17; return tl;
}
inline void maybe(int mult = 1) {
    int e = enabled.load(std::memory_order_relaxed);
    if (!e) return;
    auto r = rnd();
    if ((int)(r % 1000) >= e * mult) return;
    injected.fetch_add(1, std::memory_order_relaxed);
    auto k = (r >> 20) % 8;
    if (k < 4) sched_yield();
    else { struct timespec ts{0, (long)((r >> 30) % (k == 7 ? 400000 : 30000))}; nanosleep(&ts, nullptr); }
}
struct boot { void *(*fn)(void *); void *arg; };
inline void *tramp(void *p) { boot b = *(boot *)p; delete (boot *)p; maybe(6); return b.fn(b.arg); }
}

#if !defined(VF_ASAN) && !defined(VF_TSAN)
extern "C" {
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
    using F = int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
    static F real = (F)dlsym(RTLD_NEXT, "pthread_create");
    auto *b = new vfdelay::boot{fn, arg};
    int r = real(t, a, vfdelay::tramp, b);
    vfdelay::maybe(2);
    return r;
}
int pthread_mutex_lock(pthread_mutex_t *m) {
    using F = int (*)(pthread_mutex_t *);
    static F real = (F)dlsym(RTLD_NEXT, "pthread_mutex_lock");
    vfdelay::maybe();
    return real(m);
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
    using F = int (*)(pthread_mutex_t *);
    static F real = (F)dlsym(RTLD_NEXT, "pthread_mutex_unlock");
    int r = real(m);
    vfdelay::maybe();
    return r;
}
int pthread_cond_signal(pthread_cond_t *c) {
    using F = int (*)(pthread_cond_t *);
    static F real = (F)dlvsym(RTLD_NEXT, "pthread_cond_signal", "GLIBC_2.3.2");
    vfdelay::maybe();
    int r = real(c);
    vfdelay::maybe();
    return r;
}
}
#endif
#endif
